"""Common pieces of the checks: violations, case hashing, sessions."""
import contextlib
import hashlib
import json
import os
import traceback

import numpy as np


class Violation(Exception):
    """The code under test broke the property on this case."""


class KnownFinding(Exception):
    """The case hits a listed known finding (identified by key)."""

    def __init__(self, key):
        super(KnownFinding, self).__init__(key)
        self.key = key


def canon(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Info(object):
    """What a check reports about the case it ran."""

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


class Sub(object):
    def __init__(self, name, strategy, check, examples=(), strata=()):
        self.name = name
        self.strategy = strategy      # callable -> hypothesis strategy
        self.check = check            # callable(case) -> Info
        self.examples = list(examples)
        self.strata = list(strata)    # see gen.ONLY


@contextlib.contextmanager
def fresh_graph(seed=None):
    import tensorflow as tf
    g = tf.Graph()
    with g.as_default():
        if seed is not None:
            tf.set_random_seed(seed)
        yield g


def session(graph=None, threads=1, optimize=True):
    import tensorflow as tf
    cfg = tf.ConfigProto(intra_op_parallelism_threads=threads,
                         inter_op_parallelism_threads=threads)
    if not optimize:
        # TensorFlow's graph optimiser may drop no-op reductions together
        # with the assertions hanging on them
        cfg.graph_options.rewrite_options.disable_meta_optimizer = True
    return tf.Session(graph=graph, config=cfg)


def rng_of(*parts):
    """Deterministic array generator derived from integers in the case."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def close(got, want, tol, what, ctx=''):
    """got == want within tol (array or scalar), treating inf exactly."""
    got = np.asarray(got, dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    require(got.shape == want.shape, '%s: shape %s, expected %s %s',
            what, got.shape, want.shape, ctx)
    tol = np.broadcast_to(np.asarray(tol, dtype=np.float64), want.shape)
    with np.errstate(invalid='ignore'):
        ok = np.abs(got - want) <= tol
    ok = ok | (np.isinf(want) & (got == want))
    ok = ok | (np.isnan(want) & np.isnan(got))
    if not np.all(ok):
        i = np.argwhere(~ok)[0]
        i = tuple(int(j) for j in i)
        raise Violation('%s: at %s got %r, expected %r (tolerance %.3g) %s' % (
            what, i, float(got[i]), float(want[i]), float(tol[i]), ctx))


def describe(exc):
    return ''.join(traceback.format_exception(type(exc), exc,
                                              exc.__traceback__))[-6000:]
