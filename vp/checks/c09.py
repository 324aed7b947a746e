"""C09: MetaBayesianNet.observe builds an independent, correctly observed net
every time, whatever was called before.

A case is a history over two meta nets of the same model family: observe with
some subset of the nodes, nested observes from inside the model function, model
functions that raise, plain nets in between, setting log_joint.  Every net
handed out is evaluated in one session run and compared with a Python model of
what it must contain.
"""
import contextlib

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import (Info, Sub, Violation, close, fresh_graph, require, rng_of,
                     session)

NAMES = ('x', 'y', 'z', 'name', 'func', 'observations', 'meta_bn', 'scope',
         'a b', 'x/y', 'kwargs', 'f')
LOG2PI = float(np.log(2 * np.pi))


class Boom(Exception):
    pass


def logpdf(x, m, s):
    return -0.5 * LOG2PI - np.log(s) - 0.5 * ((x - m) / s) ** 2


@st.composite
def strategy(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=3, max_size=4,
                          unique=True))
    obs = st.integers(0, 2 ** (len(names) + 1) - 1)
    metas = []
    for _ in range(2):
        scope = draw(st.sampled_from([None, 'm', 'm', 'net']))
        metas.append({
            'scope': scope,
            'reuse': bool(scope) and draw(st.booleans()),
            'via': draw(st.sampled_from(['decorator', 'class'])),
            'argstyle': draw(st.sampled_from(['pos', 'kw', 'mixed', 'none'])),
            'omit': draw(st.sampled_from(['keep', 'leave', 'default'])),
            'inner_obs': draw(st.integers(0, 2 ** len(names) - 1))
            if draw(st.booleans()) else 0})
    observe = (
        st.fixed_dictionaries({
            'op': st.just('observe'), 'm': st.integers(0, 1), 'obs': obs,
            'how': st.sampled_from(['array', 'tensor', 'zero', 'stoch',
                                    'list']),
            'unknown': st.booleans(),
            'nest': st.none() | st.fixed_dictionaries({
                'at': st.integers(0, 2), 'm': st.integers(0, 1), 'obs': obs,
                'boom': st.booleans()}),
            'late': st.booleans(), 'early': st.booleans(),
            'ctx': st.booleans()}))
    lj = st.fixed_dictionaries({
        'op': st.just('log_joint'), 'm': st.integers(0, 1),
        'kind': st.sampled_from(['none', 'fn', 'fn2', 'fn', 'fn2', 'bad'])})
    act = st.one_of(
        observe, observe, observe,
        st.fixed_dictionaries({
            'op': st.just('boom'), 'm': st.integers(0, 1), 'obs': obs,
            'at': st.integers(0, 3)}),
        st.fixed_dictionaries({
            'op': st.just('plain'), 'inner': st.integers(0, 1),
            'ctx': st.booleans()}),
        lj, lj)
    return {'names': names, 'metas': metas,
            'base': draw(gen.dims(max_rank=2, max_dim=3)),
            'acts': draw(st.lists(act, min_size=4, max_size=8)),
            'seed': draw(gen.SEED)}


class World(object):
    """The model functions and what they must produce."""

    def __init__(self, tf, case):
        import zhusuan as zs
        self.tf, self.zs, self.case = tf, zs, case
        self.names = case['names']
        self.base = tuple(case['base'])
        self.r = rng_of('meta', case['seed'])
        self.script = []       # what the running model function must do
        self.metas, self.vars = [], [[], []]
        self.inner = []
        self.lj = [None, None]
        self.calls = []
        self.done = [False, False]
        for k in range(2):
            self.inner.append({n: self.val() for i, n in
                               enumerate(self.names)
                               if case['metas'][k]['inner_obs'] >> i & 1})
        self.params = [(float(np.float32(.5 + .3 * k)),
                        float(np.float32(1.1 + .4 * k)),
                        float(np.float32(-.7 + .2 * k))) for k in range(2)]
        for k in range(2):
            self.metas.append(self.make(k))

    def val(self):
        return self.r.normal(size=self.base).astype('float32')

    def body(self, k, a, scale, shift):
        """The model function of meta net k."""
        tf, zs = self.tf, self.zs
        script = self.script.pop() if self.script else {}
        self.calls.append((k, a, scale, shift))
        c = self.case['metas'][k]
        # a TF template whose first call fails or recurses after creating a
        # variable cannot be called again: that is TensorFlow's rule
        fresh = c['reuse'] and not self.done[k]
        if fresh and script.get('boom') is not None:
            raise Boom('boom %d' % k)
        if c['reuse']:
            w = tf.get_variable('w', shape=[], initializer=
                                tf.constant_initializer(.25 + k))
        else:
            w = tf.Variable(.25 + k, name='w', trainable=False)
        self.vars[k].append(w)
        inner = self.inner[k]
        bn = zs.BayesianNet(observed=dict(inner)) if inner else \
            zs.BayesianNet()
        prev = tf.constant(a, tf.float32)
        for i, n in enumerate(self.names):
            if script.get('nest') and script['nest']['at'] == i \
                    and self.nestable(script['nest']['m']):
                self.nested(script['nest'])
            if script.get('boom') == i:
                raise Boom('boom %d' % k)
            prev = bn.normal(n, prev * w + shift * tf.ones(self.base),
                             std=scale)
        self.done[k] = True
        return bn

    def nestable(self, k):
        return self.done[k] or not self.case['metas'][k]['reuse']

    def nested(self, nest):
        k = nest['m']
        obs = self.obs_of(nest['obs'])
        self.script.append({'boom': 1} if nest['boom'] else {})
        if nest['boom']:
            try:
                self.metas[k].observe(**obs)
            except Boom:
                pass
            else:
                raise Violation('the exception of the model function was '
                                'swallowed by observe')
        else:
            nb = self.metas[k].observe(**obs)
            self.built.append((nb, k, obs, self.lj[k], None, 'nested'))

    def obs_of(self, mask, how='array'):
        out = {}
        tf = self.tf
        for i, n in enumerate(self.names):
            if mask >> i & 1:
                v = self.val()
                if how == 'zero':
                    v = np.zeros_like(v) if v.shape else np.float32(0.)
                out[n] = v
        return out

    def given(self, obs, how):
        tf, zs = self.tf, self.zs
        out = {}
        for n, v in obs.items():
            if how == 'tensor':
                v = tf.constant(v)
            elif how == 'list':
                v = v.tolist()
            elif how == 'zero' and not v.shape:
                v = 0.
            elif how == 'stoch':
                v = zs.BayesianNet(observed={'o': v}).normal(
                    'o', tf.zeros(self.base), std=1.)
            out[n] = v
        return out

    def make(self, k):
        zs, tf = self.zs, self.tf
        c = self.case['metas'][k]
        a, scale, shift = self.params[k]
        world = self

        def build(a, scale=77., shift=99.):
            """doc of build"""
            return world.body(k, a, scale, shift)
        pos, kw = {
            'pos': ([a, scale, shift], {}),
            'kw': ([], {'a': a, 'scale': scale, 'shift': shift}),
            'mixed': ([a], {'shift': shift, 'scale': scale}),
            'none': ([], {})}[c['argstyle']]
        if c['argstyle'] == 'none':
            # nothing is passed: the model function stands on its own
            def build(a=a, scale=scale, shift=shift):
                """doc of build"""
                return world.body(k, a, scale, shift)
        if c['via'] == 'decorator':
            f = zs.meta_bayesian_net(
                scope=c['scope'], reuse_variables=c['reuse'])(build)
            require(f.__name__ == 'build' and f.__doc__ == 'doc of build',
                    'decorated function lost its name or doc')
            m = f(*pos, **kw)
        else:
            opt = {'args': pos, 'kwargs': kw, 'scope': c['scope'],
                   'reuse_variables': c['reuse']}
            if c.get('omit', 'keep') != 'keep':
                # what is left at its default, or given as that default
                for n, dflt in (('args', None), ('kwargs', None),
                                ('scope', None),
                                ('reuse_variables', False)):
                    if not opt[n]:
                        if c['omit'] == 'leave':
                            del opt[n]
                        else:
                            opt[n] = dflt
            m = zs.MetaBayesianNet(build, **opt)
            # what is passed is captured at construction
            if pos:
                pos[0] = 1e6
            kw['scale'] = -5.
        require(isinstance(m, zs.MetaBayesianNet), 'not a MetaBayesianNet')
        require(m.log_joint is None, 'log_joint of a new meta net is %r',
                m.log_joint)
        return m


@contextlib.contextmanager
def outer_net(on, labels):
    """An unrelated BayesianNet context around a call: nothing of what is
    built inside may end up in it, and it is the context again afterwards."""
    import zhusuan as zs
    if not on:
        yield
        return
    labels.append('inside another net')
    with zs.BayesianNet() as outer:
        yield
        require(not outer.nodes, 'nodes leaked into the surrounding net: %s',
                sorted(outer.nodes))
        require(zs.BayesianNet.get_context() is outer, 'the surrounding net '
                'is no longer the context')


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    labels = []
    with fresh_graph(case['seed'] % 100003) as g:
        if case['seed'] % 8 == 0:
            try:
                zs.MetaBayesianNet(lambda: None, reuse_variables=True)
            except ValueError:
                pass
            else:
                raise Violation('reuse_variables without scope accepted')
        w = World(tf, case)
        w.built = []
        fns = {
            'fn': lambda bn: 3. * tf.reduce_sum(bn[case['names'][0]]) + 1.,
            'fn2': lambda bn: tf.add_n(bn.cond_log_prob(
                list(case['names'][:2])))}
        plain, early = [], {}
        for act in case['acts']:
            if act['op'] == 'log_joint':
                v = {'none': None, 'bad': 3.5}.get(act['kind'],
                                                   fns.get(act['kind']))
                w.metas[act['m']].log_joint = v
                require(w.metas[act['m']].log_joint is v,
                        'log_joint set but not returned')
                w.lj[act['m']] = act['kind'] if v is not None else None
                continue
            if act['op'] == 'plain':
                with outer_net(act.get('ctx'), labels):
                    bn = zs.BayesianNet(observed={
                        case['names'][0]: w.val()} if act['inner'] else None)
                    nodes = [bn.normal(n, tf.zeros(w.base), std=1.)
                             for n in case['names']]
                flags = [x.is_observed() for x in nodes]
                require(flags == [bool(act['inner'])] + [False] *
                        (len(nodes) - 1),
                        'a net built outside observe is observed: %s', flags)
                plain.append(bn)
                continue
            obs = w.obs_of(act['obs'], act.get('how', 'array'))
            k = act['m']
            if act['op'] == 'boom':
                at = min(act['at'], len(case['names']) - 1)
                w.script.append({'boom': at})
                try:
                    w.metas[k].observe(**obs)
                except Boom:
                    labels.append('model raised')
                else:
                    raise Violation('exception of the model function lost')
                require(not w.script, 'model function was not called')
                continue
            giv = w.given(obs, act['how'])
            if act['unknown']:
                giv['no such node'] = tf.constant(2.)
            late_val = None
            if act['obs'] >> len(case['names']) & 1 and act['late']:
                late_val = w.val()
                giv['late one'] = late_val
            script = {}
            if act['nest']:
                script['nest'] = dict(act['nest'])
                labels.append('nested')
            w.script.append(script)
            ncalls = len(w.calls)
            with outer_net(act.get('ctx'), labels):
                bn = w.metas[k].observe(**giv)
            require(isinstance(bn, zs.BayesianNet), 'observe returned %s',
                    type(bn))
            mine = [c for c in w.calls[ncalls:] if c[0] == k]
            require(len(mine) >= 1, 'model function not called')
            w.built.append((bn, k, obs, w.lj[k],
                            (act['late'], late_val), 'top'))
            if act.get('early') and w.lj[k] != 'bad':
                early[len(w.built) - 1] = bn.log_joint()
            labels.append('how:' + act['how'])
        for c in w.calls:
            require(c[1:] == w.params[c[0]], 'model function called with %s, '
                    'expected %s', c[1:], w.params[c[0]])
        # everything the nets hand out
        fetch = []
        for i, (bn, k, obs, lj, late, kind) in enumerate(w.built):
            d = {}
            if i in early:
                d['early'] = early[i]
                labels.append('log_joint asked between calls')
            want = dict(w.inner[k])
            want.update(obs)
            names = list(case['names'])
            if late and late[0]:
                bn.normal('late one', tf.ones(w.base), std=2.)
                require(bn['late one'].is_observed() ==
                        (late[1] is not None), 'node added later: observed '
                        'is %s', bn['late one'].is_observed())
                d['late'] = bn['late one']
            require(sorted(bn.nodes) == sorted(
                names + (['late one'] if 'late' in d else [])),
                'nodes of the net are %s', sorted(bn.nodes))
            for n in names:
                require(bn[n].is_observed() == (n in want),
                        'node %r is_observed() is %s (observed: %s)', n,
                        bn[n].is_observed(), sorted(want))
                d['v:' + n] = bn[n]
            d['clp'] = bn.cond_log_prob(names)
            if 'late' in d:
                d['clp_late'] = bn.cond_log_prob('late one')
            cur = w.lj[k]
            if cur == 'bad' and i in early and 'late' not in d:
                pass        # the log joint asked for earlier still stands
            elif cur == 'bad':
                try:
                    bn.log_joint()
                except TypeError:
                    pass
                else:
                    raise Violation('non-callable log_joint accepted')
            elif cur == lj:
                d['lj'] = bn.log_joint()
                if cur is not None:
                    labels.append('custom log_joint')
            fetch.append(d)
        for k in range(2):
            c = case['metas'][k]
            vs = w.vars[k]
            if c['reuse']:
                require(all(v is vs[0] for v in vs),
                        'reuse_variables=True made %d variables', len(vs))
            else:
                require(len({id(v) for v in vs}) == len(vs),
                        'variables shared without reuse')
            if c['scope'] is not None:
                for v in vs:
                    top = v.name.split('/')
                    require(any(t == c['scope'] or
                                t.startswith(c['scope'] + '_')
                                for t in top[:-1]),
                            'variable %s is outside scope %s', v.name,
                            c['scope'])
        if w.vars[0] and w.vars[1]:
            require(not ({id(v) for v in w.vars[0]} &
                         {id(v) for v in w.vars[1]}),
                    'two meta nets share variables')
        with session(g) as sess:
            sess.run(tf.global_variables_initializer())
            vals = sess.run(fetch)
    drawn = []
    for (bn, k, obs, lj, late, kind), v in zip(w.built, vals):
        want = dict(w.inner[k])
        want.update(obs)
        a, scale, shift = w.params[k]
        wv = .25 + k
        prev = np.full(w.base, a)
        total = np.zeros(w.base)
        parts = []
        for i, n in enumerate(case['names']):
            x = v['v:' + n]
            if n in want:
                require(np.array_equal(x, want[n]), 'node %r has value %s, '
                        'observed %s', n, x, want[n])
            else:
                drawn.append(np.ravel(x))
            lp = logpdf(np.asarray(x, np.float64), prev * wv + shift, scale)
            close(v['clp'][i], np.broadcast_to(lp, w.base),
                  2e-4 * (1 + np.abs(lp)), 'cond_log_prob of %r' % n, kind)
            parts.append(lp)
            prev = np.asarray(x, np.float64)
        total = sum(parts)
        first = 3. * np.sum(np.asarray(
            v['v:' + case['names'][0]], np.float64)) + 1.
        if 'early' in v:
            t = first if lj == 'fn' else parts[0] + parts[1] if \
                lj == 'fn2' else total
            close(v['early'], t, 1e-3 * (1 + np.abs(t)), 'log_joint asked '
                  'right after observe', str(lj))
        if 'late' in v:
            if late[1] is not None:
                require(np.array_equal(v['late'], late[1]),
                        'node added after observe lost its observation')
            lp = logpdf(np.asarray(v['late'], np.float64), 1., 2.)
            total = total + lp
        if 'lj' in v:
            if lj == 'fn':
                total = first
            elif lj == 'fn2':
                total = parts[0] + parts[1]
            close(v['lj'], total, 1e-3 * (1 + np.abs(total)), 'log_joint',
                  str(lj))
    # unobserved nodes of different nets are separate draws
    if drawn:
        flat = np.concatenate(drawn)
        require(len(np.unique(flat)) == len(flat),
                'samples of different nodes or nets coincide')
    nt = len(w.built) >= 2 and any(o for _, _, o, _, _, _ in w.built)
    return Info(nt, sorted(set(labels)))


def check_meta_vars(case):
    """Named variables of a meta net: one set for all nets when reuse was
    requested, never silently one set when it was not."""
    import tensorflow as tf
    import zhusuan as zs
    for reuse in (True, False):
        with fresh_graph(6):
            seen = []

            @zs.meta_bayesian_net(scope=case['scopes'][0],
                                  reuse_variables=reuse)
            def model(k):
                bn = zs.BayesianNet()
                seen.append((tf.get_variable('w', shape=[2]),
                             tf.get_variable('b', shape=[])))
                bn.normal('x', seen[-1][0] * k + seen[-1][1], std=1.)
                return bn
            m = model(2.)
            refused = False
            for _ in range(len(case['calls'])):
                try:
                    m.observe()
                except ValueError:
                    refused = True
            require(seen, 'the model function never ran')
            ids = [{id(s[j]) for s in seen} for j in range(2)]
            if reuse:
                require(not refused and ids[0] and len(ids[0]) == 1 and
                        len(ids[1]) == 1 and len(seen) >= len(case['calls']),
                        'nets of one meta net with reuse_variables=True do '
                        'not share their variables')
            else:
                require(len(ids[0]) == len(seen) and len(ids[1]) == len(seen),
                        'nets of one meta net share variables although reuse '
                        'was not requested')


@st.composite
def reuse_strategy(draw):
    return {'nf': draw(st.integers(1, 3)),
            'scopes': [draw(st.sampled_from(['s', 't'])) for _ in range(3)],
            'calls': draw(st.lists(st.tuples(
                st.integers(0, 2), st.integers(0, 3), st.booleans()
                ).map(list), min_size=1, max_size=8)),
            'via': draw(st.sampled_from(['reuse_variables', 'reuse'])),
            'seed': draw(gen.SEED)}


def check_reuse(case):
    """reuse_variables: every call of one function sees the same variables,
    and the value is the function of (arguments, those variables)."""
    import tensorflow as tf
    import warnings
    from zhusuan.framework import utils as zu
    r = rng_of('reuse', case['seed'])
    with fresh_graph(5) as g, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fs, made = [], {}
        for i in range(case['nf']):
            def f(x, scale=1., i=i):
                w = tf.get_variable('w', shape=[2])
                b = tf.get_variable('b', shape=[], initializer=
                                    tf.constant_initializer(i + 1.))
                made.setdefault(i, []).append((w, b))
                return x * w * scale + b
            fs.append(getattr(zu, case['via'])(case['scopes'][i])(f))
        outs, want = [], []
        for i, k, kw in case['calls']:
            i %= case['nf']
            x = r.normal(size=2).astype('float32')
            # TensorFlow names the variables where the first call is made
            if k and i in made:
                with tf.variable_scope('outer%d' % k):
                    o = fs[i](tf.constant(x), **({'scale': 3.} if kw else {}))
            else:
                o = fs[i](tf.constant(x), **({'scale': 3.} if kw else {}))
            outs.append(o)
            want.append((i, x, 3. if kw else 1.))
        for i, vs in made.items():
            require(all(v[0] is vs[0][0] and v[1] is vs[0][1] for v in vs),
                    'calls of one function use different variables')
        owners = [id(v[0][0]) for v in made.values()]
        require(len(set(owners)) == len(owners),
                'two functions share variables')
        with session(g) as sess:
            sess.run(tf.global_variables_initializer())
            vo, vv = sess.run([outs, {str(i): v[0] for i, v in made.items()}])
        for o, (i, x, s) in zip(vo, want):
            w, b = vv[str(i)]
            t = x.astype('float64') * w * s + b
            close(o, t, 1e-5 * (1 + np.abs(t)), 'value of a reused function')
    check_meta_vars(case)
    return Info(len(case['calls']) > len(made), [case['via']])


SUBCHECKS = [Sub('history', strategy, check),
             Sub('reuse', reuse_strategy, check_reuse)]
