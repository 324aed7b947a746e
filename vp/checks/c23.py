"""C23: the same program with the same seed gives the same results, whatever
else happens around it, and leaves the caller's objects alone."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vp import programs
from vp.core import Info, Sub, fresh_graph, require, session


def build(tf, zs, c, scope='p'):
    with tf.variable_scope(scope):
        return programs.Program(tf, zs, c)


def init(tf, sess, *progs):
    fd = {}
    for p in progs:
        fd.update(p.feed)
    sess.run(tf.global_variables_initializer(), fd)


def alone(tf, zs, c, seed):
    with fresh_graph(seed) as g, session(g) as sess:
        p = build(tf, zs, c)
        init(tf, sess, p)
        return p, list(p.play(sess))


class Helper(object):
    """A second process with its own hash seed."""
    proc = None

    @classmethod
    def ask(cls, case):
        if cls.proc is None or cls.proc.poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED=str(os.getpid() % 4000 + 7))
            cls.proc = subprocess.Popen(
                [sys.executable, '-c', 'from vp import boot; boot.boot(); '
                 'from vp.checks import c23; c23.serve()'], env=env, text=True,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, cwd=os.path.dirname(os.path.dirname(
                    os.path.dirname(os.path.abspath(__file__)))))
        cls.proc.stdin.write(json.dumps(case) + '\n')
        cls.proc.stdin.flush()
        while True:
            line = cls.proc.stdout.readline()
            if not line:
                raise OSError('the second process ended')
            if line.startswith('RESULT '):
                return json.loads(line[7:])


def digest(steps):
    return [[[str(a.dtype), list(a.shape), a.tobytes().hex()] for a in s]
            for s in steps]


def undigest(d):
    return [[np.frombuffer(bytes.fromhex(h), np.dtype(t)).reshape(s)
             for t, s, h in step] for step in d]


def serve():
    import tensorflow as tf
    import zhusuan as zs
    for line in sys.stdin:
        case = json.loads(line)
        try:
            out = {'steps': digest(alone(tf, zs, case['a'], case['s'])[1])}
        except Exception as e:
            out = {'error': '%s: %s' % (type(e).__name__, e)}
        print('RESULT ' + json.dumps(out), flush=True)


@st.composite
def strategy(draw):
    return {'a': draw(programs.case()),
            'b': draw(programs.case(any_kind=True)),
            's': draw(st.integers(1, 10 ** 6)),
            'other': draw(st.booleans()),
            'order': draw(st.lists(st.booleans(), min_size=8, max_size=8))}


def variables(tf, sess, names):
    return sess.run([v for v in tf.global_variables() if v.name in names])


def check(case):
    import tensorflow as tf
    import zhusuan as zs
    a, b, s = case['a'], case['b'], case['s']
    kind = a['kind']
    labels = ['program ' + kind, 'other ' + b['kind']]
    with fresh_graph(s) as g, session(g) as sess:
        p = build(tf, zs, a)
        extra = set(v.name for v in tf.trainable_variables()) - \
            set(v.name for v in p.mine)
        require(not extra, '%s adds the trainable variables %s', kind,
                sorted(extra))
        require(not p.untrained, '%s has the weights %s, which cannot be '
                'trained', kind, p.untrained)
        init(tf, sess, p)
        names = {v.name for v in tf.global_variables()}
        v0 = variables(tf, sess, names)
        first = list(p.play(sess))
        # the initializers start everything over
        init(tf, sess, p)
        if p.restarts:
            v1 = variables(tf, sess, names)
            require(all(np.array_equal(x, y, equal_nan=True)
                        for x, y in zip(v0, v1)), '%s: initializing again '
                    'does not bring back the first state', kind)
    require(not p.moved(), '%s changed what the caller passed in: %s', kind,
            p.moved())
    # another graph, another program: left half done
    with fresh_graph(s + 17) as g2:
        sess2 = session(g2)
        q = build(tf, zs, b)
        init(tf, sess2, q)
        half = q.play(sess2)
        next(half)
        # the first program again, and the other one beside it
        with fresh_graph(s) as g3, session(g3) as sess:
            p3 = build(tf, zs, a)
            q3 = build(tf, zs, b, 'q')
            extra = set(v.name for v in tf.trainable_variables()) - \
                set(v.name for v in p3.mine + q3.mine)
            require(not extra, '%s and %s add the trainable variables %s',
                    kind, b['kind'], sorted(extra))
            init(tf, sess, p3, q3)
            again, it = [], q3.play(sess)
            for k, step in enumerate(p3.play(sess)):
                again.append(step)
                if case['order'][k % 8]:
                    next(it, None)
        for _ in half:
            pass
        sess2.close()
    require(not p3.moved() and not q3.moved(), '%s / %s changed what the '
            'caller passed in: %s', kind, b['kind'], p3.moved() + q3.moved())
    d = programs.same(first, again)
    require(d is None, '%s: the same program with the same seed gives other '
            'results after and beside another one (%s): %s', kind,
            b['kind'], d)
    # another seed, or none: other numbers
    if p.random:
        fresh = alone(tf, zs, a, s + 1)[1]
        require(programs.same(first, fresh) is not None, '%s: the graph seed '
                'makes no difference', kind)
        free = [alone(tf, zs, a, None)[1] for _ in range(2)]
        require(programs.same(*free) is not None, '%s: two runs without a '
                'seed draw the same numbers', kind)
        labels.append('random')
    if case['other']:
        r = Helper.ask({'a': a, 's': s})
        require('error' not in r, '%s fails in another process: %s', kind,
                r.get('error'))
        d = programs.same(first, undigest(r['steps']))
        require(d is None, '%s: the same program with the same seed gives '
                'other results in another process: %s', kind, d)
        labels.append('second process')
    return Info(len(first[0]) > 0, labels)


SUBCHECKS = [Sub('programs', strategy, check, strata=programs.KINDS)]
