"""Make zhusuan (from /repo's working tree) and Hypothesis importable.

Hypothesis is only installed in the tooling virtualenv, which has its own
numpy; a finder restricted to Hypothesis and its pure dependencies keeps that
numpy from shadowing the one TensorFlow was built against.
"""
import importlib.machinery
import sys

TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPO = '/repo'


class _OnlyHypothesis(object):
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        top = name.split('.')[0]
        if path is None and (top in ('hypothesis', 'sortedcontainers', 'attr',
                                     'attrs') or
                             top.startswith('_hypothesis')):
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def boot():
    if not any(f is _OnlyHypothesis for f in sys.meta_path):
        sys.meta_path.append(_OnlyHypothesis)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import tf1_api  # noqa: F401  (tensorflow 1 API, graph mode)
    import tensorflow as tf
    import zhusuan
    if not zhusuan.__file__.startswith(REPO + '/zhusuan/'):
        raise ImportError('zhusuan comes from %s' % zhusuan.__file__)
    try:
        tf.get_logger().setLevel('ERROR')
    except Exception:
        pass
    return tf
