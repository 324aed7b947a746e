"""C08: a BayesianNet is its observations, its samples and the sum of its
conditional log probabilities - after any history of calls.

A case is a history of calls on one net (add stochastic / deterministic node,
ask for log_joint, cond_log_prob, get, and misuse).  A Python model tracks what
the net must contain; every tensor handed out is evaluated in a single session
run and compared with numpy recomputation from the fetched parent values.
"""
import numpy as np
from hypothesis import strategies as st

from vp import dists, gen
from vp.core import Info, Sub, close, fresh_graph, require, rng_of, session

KINDS = ('normal', 'normal_logstd', 'bernoulli', 'gamma', 'laplace',
         'uniform', 'poisson', 'beta', 'inverse_gamma', 'fold_normal',
         'bin_concrete', 'binomial')
F = 'float32'


class Expr(object):
    """The same expression over parents, in TF and in numpy."""

    def __init__(self, parents, coefs, shape):
        self.parents, self.coefs, self.shape = parents, coefs, shape

    def tf(self, tf, nodes, squash):
        x = tf.constant(self.coefs[0].astype(F))
        for p, c in zip(self.parents, self.coefs[1:]):
            v = tf.tanh(tf.cast(nodes[p], tf.float32) * .5)
            x = x + tf.constant(c.astype(F)) * v
        return squash(x)

    def np(self, vals, squash):
        x = self.coefs[0].astype(F).astype(np.float64)
        for p, c in zip(self.parents, self.coefs[1:]):
            x = x + c.astype(F).astype(np.float64) * np.tanh(
                np.asarray(vals[p], np.float64) * .5)
        return squash(x)


def make_node(tf, bn, name, kind, exprs, nodes, gn, ns, dtype, general,
              nst=0):
    """Adds the node through the net; returns (node, reference(vals))."""
    import zhusuan.distributions as zd
    e1, e2 = exprs
    ex = lambda e: e.tf(tf, nodes, tf.exp)
    idt = lambda e: e.tf(tf, nodes, lambda x: x)
    nex = lambda e: (lambda v: e.np(v, np.exp))
    nid = lambda e: (lambda v: e.np(v, lambda x: x))
    kw = dict(group_ndims=gn)
    skw = {} if ns is None else {'n_samples': ns}
    if ns is not None and nst:
        skw['n_samples'] = tf.constant(ns) if nst == 1 else \
            tf.placeholder_with_default(ns, [])
    disc = {}
    if kind == 'normal':
        cls, meth, a, r = 'Normal', 'normal', dict(mean=idt(e1), std=ex(e2)), \
            dict(mean=nid(e1), std=nex(e2))
    elif kind == 'normal_logstd':
        cls, meth, a, r = 'Normal', 'normal', dict(
            mean=idt(e1), logstd=idt(e2)), dict(mean=nid(e1), logstd=nid(e2))
    elif kind == 'fold_normal':
        cls, meth, a, r = 'FoldNormal', 'fold_normal', dict(
            mean=idt(e1), std=ex(e2)), dict(mean=nid(e1), std=nex(e2))
    elif kind == 'laplace':
        cls, meth, a, r = 'Laplace', 'laplace', dict(
            loc=idt(e1), scale=ex(e2)), dict(loc=nid(e1), scale=nex(e2))
    elif kind == 'uniform':
        lo, w = idt(e1), ex(e2)
        cls, meth, a = 'Uniform', 'uniform', dict(minval=lo - w, maxval=lo + w)
        r = dict(minval=lambda v: e1.np(v, lambda x: x) - e2.np(v, np.exp),
                 maxval=lambda v: e1.np(v, lambda x: x) + e2.np(v, np.exp))
    elif kind in ('gamma', 'beta', 'inverse_gamma'):
        cls = {'gamma': 'Gamma', 'beta': 'Beta',
               'inverse_gamma': 'InverseGamma'}[kind]
        meth, a, r = kind, dict(alpha=ex(e1), beta=ex(e2)), \
            dict(alpha=nex(e1), beta=nex(e2))
    elif kind == 'bernoulli':
        cls, meth, a, r = 'Bernoulli', 'bernoulli', dict(logits=idt(e1)), \
            dict(logits=nid(e1))
        disc = {'dtype': getattr(tf, dtype)}
    elif kind == 'poisson':
        cls, meth, a, r = 'Poisson', 'poisson', dict(rate=ex(e1)), \
            dict(rate=nex(e1))
        disc = {'dtype': getattr(tf, dtype)}
    elif kind == 'binomial':
        cls, meth, a, r = 'Binomial', 'binomial', dict(
            logits=idt(e1), n_experiments=4), dict(logits=nid(e1))
        disc = {'dtype': getattr(tf, dtype)}
    elif kind == 'bin_concrete':
        cls, meth, a, r = 'BinConcrete', 'bin_concrete', dict(
            temperature=.7, logits=idt(e1)), dict(
                temperature=lambda v: np.float64(np.float32(.7)),
                logits=nid(e1))
    if general:
        dist = getattr(zd, cls)(**dict(a, **dict(kw, **disc)))
        node = bn.stochastic(name, dist, **skw)
    else:
        node = getattr(bn, meth)(name, **dict(a, **dict(kw, **dict(disc,
                                                                  **skw))))

    def ref(vals):
        return dists.raw(cls, F, kwargs={'n_experiments': 4} if kind ==
                         'binomial' else None,
                         **{k: f(vals) for k, f in r.items()})
    return node, ref, (dtype if disc else F)


def obs_value(kind, shape, r, dtype):
    if kind in ('normal', 'normal_logstd', 'laplace'):
        v = r.normal(size=shape)
    elif kind in ('gamma', 'inverse_gamma', 'fold_normal'):
        v = np.exp(r.normal(size=shape) * .5)
    elif kind in ('beta', 'bin_concrete'):
        v = r.uniform(.1, .9, size=shape)
    elif kind == 'uniform':
        v = r.uniform(-3, 3, size=shape)
    elif kind == 'bernoulli':
        v = r.randint(0, 2, size=shape)
    elif kind == 'binomial':
        v = r.randint(0, 5, size=shape)
    else:
        v = r.poisson(2., size=shape)
    return np.asarray(v).astype(dtype)


def build(case, make_bn, tf):
    """Interpret the history; returns what was handed out and what is
    expected of it."""
    from zhusuan.framework.bn import StochasticTensor
    base = tuple(case['base'])
    gn = min(case['gn'], len(base))
    S = case['S']
    r = rng_of('bn', case['seed'])
    # plan: which node names get observed, with which values
    sampled = {}     # name -> carries the S axis
    plan = []
    observed = {}
    names = []
    for i, op in enumerate(case['ops']):
        if op['op'] not in ('stoch', 'det'):
            continue
        name = 'n%d' % i
        parents = sorted({names[k % len(names)] for k in op['parents']}) \
            if names else []
        has_s = any(sampled[p] for p in parents)
        own = bool(op.get('ns')) and S is not None and not has_s
        coefs = [r.normal(size=base) * .4 for _ in range(len(parents) + 1)]
        coefs2 = [r.normal(size=base) * .4 for _ in range(len(parents) + 1)]
        d = {'name': name, 'op': op, 'parents': parents, 'own': own,
             'e': (Expr(parents, coefs, base), Expr(parents, coefs2, base))}
        if op['op'] == 'stoch':
            dt = F
            if op['kind'] in ('bernoulli', 'poisson', 'binomial'):
                dt = op['dtype']
            shape = ((S,) if has_s or own else ()) + base
            carries = has_s or own
            if op['obs'] == 'full':
                observed[name] = obs_value(op['kind'], shape, r, dt)
            elif op['obs'] == 'base':
                observed[name] = obs_value(op['kind'], base, r, dt)
                carries = False
            elif op['obs'] == 'lead' and S is not None:
                observed[name] = obs_value(op['kind'], (S,) + base, r, dt)
                carries = True
            d['dt'], d['shape'] = dt, shape
            sampled[name] = carries
        else:
            sampled[name] = has_s
        names.append(name)
        plan.append(d)
    by_op = {id(d['op']): d for d in plan}

    wrap = case['wrap']

    def as_given(v):
        if wrap == 'tensor':
            return tf.constant(v)
        if wrap == 'list' and v.dtype != np.float64:
            return v.tolist()
        return v
    bn = make_bn({k: as_given(v) for k, v in observed.items()})
    nodes, refs, order = {}, {}, []
    asked = []        # (kind, name, tensor, stochastic names at that time)
    for op in case['ops']:
        d = by_op.get(id(op))
        if d is not None and op['op'] == 'stoch':
            node, ref, dt = make_node(
                tf, bn, d['name'], op['kind'], d['e'], nodes, gn,
                S if d['own'] else None, d['dt'], op['general'],
                op.get('nst', 0))
            require(isinstance(node, StochasticTensor), 'node is a %s',
                    type(node))
            require(node.name == d['name'], 'node name %r', node.name)
            require(node.bn is bn, 'node.bn is not the net')
            require(node.is_observed() == (d['name'] in observed),
                    'is_observed() of %s is %s', d['name'],
                    node.is_observed())
            require(node.dtype == getattr(tf, dt), 'dtype of node is %s, '
                    'expected %s', node.dtype, dt)
            nodes[d['name']] = node
            refs[d['name']] = ref
            order.append(d['name'])
        elif d is not None:
            t = d['e'][0].tf(tf, nodes, lambda x: x)
            got = bn.deterministic(d['name'], t)
            nodes[d['name']] = got
            order.append(d['name'])
        elif op['op'] == 'log_joint':
            if any(n in refs for n in order):
                asked.append(('lj', None, bn.log_joint(),
                              [n for n in order if n in refs]))
        elif op['op'] == 'cond':
            sto = [n for n in order if n in refs]
            if sto:
                pick = [sto[k % len(sto)] for k in op['which']] or sto[:1]
                if op['many']:
                    out = bn.cond_log_prob(pick if op['many'] == 1 else
                                           tuple(pick))
                    require(isinstance(out, list) and len(out) == len(pick),
                            'cond_log_prob(list) returned %r', out)
                    for n, t in zip(pick, out):
                        asked.append(('clp', n, t, None))
                else:
                    asked.append(('clp', pick[0], bn.cond_log_prob(pick[0]),
                                  None))
        elif op['op'] == 'get':
            if order:
                pick = [order[k % len(order)] for k in op['which']] or \
                    order[:1]
                if op['many']:
                    out = bn.get(pick)
                    require(isinstance(out, list) and len(out) == len(pick),
                            'get(list) returned %r', out)
                else:
                    out = [bn.get(pick[0]), bn[pick[0]]]
                    pick = [pick[0]] * 2
                for n, t in zip(pick, out):
                    require(t is nodes[n], 'get(%s) is another node', n)
                    asked.append(('val', n, tf.convert_to_tensor(t), None))
        elif op['op'] == 'misuse':
            misuse(tf, bn, op, order, refs, nodes)
        require(set(bn.nodes) == set(order), 'nodes are %s, expected %s',
                sorted(bn.nodes), sorted(order))
    return bn, nodes, refs, order, observed, asked, plan, gn, S, base, sampled


def misuse(tf, bn, op, order, refs, nodes):
    def expect(exc, fn, what):
        try:
            fn()
        except exc:
            return
        require(False, '%s was accepted', what)
    k = op['k'] % 6
    if k == 0 and order:
        n = order[op['j'] % len(order)]
        expect(ValueError, lambda: bn.normal(n, 0., std=1.),
               'a second stochastic node named ' + n)
    elif k == 1 and order:
        n = order[op['j'] % len(order)]
        expect(ValueError, lambda: bn.deterministic(n, tf.constant(1.)),
               'a deterministic node reusing the name ' + n)
    elif k == 2:
        expect(ValueError, lambda: bn.get('missing'), 'get of a missing node')
        expect(ValueError, lambda: bn['missing'], '[] of a missing node')
        expect(ValueError, lambda: bn.cond_log_prob(['missing']),
               'cond_log_prob of a missing node')
    elif k == 3:
        expect(TypeError, lambda: bn.get(3) if op['j'] % 2 else bn[3],
               'a non-string name')
    elif k == 4 and order:
        def assign():
            bn[order[0]] = tf.constant(0.)
        expect(TypeError, assign, 'replacing a node by assignment')
    elif k == 5:
        det = [n for n in order if n not in refs]
        if det:
            expect(ValueError, lambda: bn.cond_log_prob(det[0]),
                   'cond_log_prob of a deterministic node')


def verify(sess, built, tf, feed=None):
    bn, nodes, refs, order, observed, asked, plan, gn, S, base, sampled = built
    sto = [n for n in order if n in refs]
    if not sto:
        return None
    asked = asked + [('lj', None, bn.log_joint(), list(sto))]
    for n in sto:
        asked.append(('clp', n, nodes[n].cond_log_p, None))
        asked.append(('val', n, nodes[n].tensor, None))
    # the conditional log probability is a function of the node value: its
    # derivative is that of the distribution's log_prob
    grads = []
    for n in sto:
        t = nodes[n].tensor
        if not t.dtype.is_floating:
            continue
        a = tf.gradients(nodes[n].cond_log_p, t)[0]
        b = tf.gradients(nodes[n].dist.log_prob(t), t)[0]
        require((a is None) == (b is None), 'cond_log_prob of %s is not '
                'differentiable at its value like log_prob', n)
        if a is not None:
            grads.append((n, a, b))
    fetch = {'grads': [(a, b) for _, a, b in grads], 'vals': {n: tf.convert_to_tensor(nodes[n]) for n in order},
             'asked': [a[2] for a in asked]}
    runs = [sess.run(fetch, feed), sess.run(fetch, feed)]
    for out in runs:
        vals = out['vals']
        for (n, _, _), (a, b) in zip(grads, out['grads']):
            require(np.array_equal(a, b, equal_nan=True) or np.allclose(
                a, b, 1e-3, 1e-5, equal_nan=True), 'derivative of '
                'cond_log_prob of %s: %s, of log_prob: %s', n, a, b)
        clp, csc = {}, {}
        for d in plan:
            n = d['name']
            if n not in nodes:
                continue
            if n not in refs:
                want = d['e'][0].np(vals, lambda x: x)
                close(vals[n], want, 1e-4 * (1 + np.abs(want)),
                      'deterministic node ' + n)
                continue
            if n in observed:
                require(np.array_equal(vals[n], observed[n]),
                        'observed node %s has value %s, not its observation '
                        '%s', n, vals[n], observed[n])
            else:
                require(vals[n].shape == d['shape'], 'sample of %s has shape '
                        '%s, expected %s', n, vals[n].shape, d['shape'])
            require(str(vals[n].dtype) == d['dt'], 'node %s evaluates to '
                    'dtype %s', n, vals[n].dtype)
            inst = refs[n](vals)
            lp, sc = inst.logpdf(vals[n])
            ax = tuple(range(lp.ndim - gn, lp.ndim))
            # float32 evaluation of the parents' tanh/exp enters as well
            clp[n] = lp.sum(ax)
            csc[n] = (sc * 20).sum(ax)
        for (kind, n, _, names), got in zip(asked, out['asked']):
            if kind == 'val':
                require(np.array_equal(got, vals[n]), 'node %s gave two '
                        'different values in one run', n)
            elif kind == 'clp':
                fuzzy_close(got, clp[n], csc[n], 'cond_log_prob of ' + n)
            else:
                want = sum(clp[m] for m in names)
                sc = sum(csc[m] for m in names)
                fuzzy_close(got, want, sc + np.zeros_like(want),
                            'log_joint over %s' % (names,))
    for n in sto:
        if n not in observed and str(runs[0]['vals'][n].dtype) == F and \
                runs[0]['vals'][n].size >= 1:
            d = [q for q in plan if q['name'] == n][0]
            if d['op']['kind'] in ('normal', 'laplace', 'uniform', 'gamma'):
                require(not np.array_equal(runs[0]['vals'][n],
                                           runs[1]['vals'][n]),
                        'unobserved node %s is not re-sampled', n)
    return runs


def fuzzy_close(got, want, sc, what):
    """-inf / boundary values of saturated samples are not judged."""
    got = np.asarray(got, np.float64)
    want = np.asarray(want, np.float64)
    require(got.shape == want.shape, '%s has shape %s, expected %s', what,
            got.shape, want.shape)
    ok = np.isfinite(want)
    tol = 1e-5 * np.broadcast_to(np.where(np.isfinite(sc), sc, 1e9),
                                 want.shape)
    close(np.where(ok, got, 0.), np.where(ok, want, 0.), tol, what)


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    with fresh_graph(case['seed'] % 1000) as g, session(g) as sess:
        built = build(case, lambda obs: zs.BayesianNet(observed=obs)
                      if obs or case['seed'] % 2 else zs.BayesianNet(), tf)
        runs = verify(sess, built, tf)
    refs, observed, asked = built[2], built[4], built[5]
    labels = ['%d stochastic' % min(len(refs), 5)]
    if observed:
        labels.append('observed')
    if any(a[0] == 'lj' for a in asked):
        labels.append('log_joint asked mid-history')
    if any(o['op'] == 'misuse' for o in case['ops']):
        labels.append('misuse')
    if case['S'] is not None:
        labels.append('n_samples')
    return Info(runs is not None and len(refs) >= 2, labels)


@st.composite
def op(draw):
    k = draw(st.sampled_from(['stoch'] * 6 + ['det', 'log_joint', 'log_joint',
                                              'cond', 'get', 'misuse']))
    idx = st.lists(st.integers(0, 9), max_size=3)
    if k == 'stoch':
        return {'op': k, 'kind': draw(st.sampled_from(KINDS)),
                'parents': draw(idx), 'ns': draw(st.booleans()),
                'nst': draw(st.sampled_from([0, 0, 1, 2])),
                'obs': draw(st.sampled_from(['no', 'no', 'full', 'base',
                                             'lead'])),
                'dtype': draw(st.sampled_from(['int32', 'float32', 'int64'])),
                'general': draw(st.booleans())}
    if k == 'det':
        return {'op': k, 'parents': draw(idx)}
    if k in ('cond', 'get'):
        return {'op': k, 'which': draw(idx), 'many': draw(st.integers(0, 2))}
    if k == 'misuse':
        return {'op': k, 'k': draw(st.integers(0, 5)),
                'j': draw(st.integers(0, 9))}
    return {'op': k}


@st.composite
def strategy(draw):
    return {'base': draw(gen.dims(max_rank=2, max_dim=3)),
            'gn': draw(st.integers(0, 2)),
            'S': draw(st.none() | st.integers(1, 4)),
            'ops': draw(st.lists(op(), min_size=2, max_size=9)),
            'wrap': draw(st.sampled_from(['tensor', 'numpy', 'list'])),
            'seed': draw(gen.SEED)}


SUBCHECKS = [Sub('history', strategy, check)]
