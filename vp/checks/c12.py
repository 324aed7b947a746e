"""C12: get_backward_ops returns exactly the operations the seed tensors depend
on, each once, in topological order, not looking past treat_as_inputs."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import Info, Sub, fresh_graph, require, rng_of

KINDS = ('const', 'ph', 'add', 'addn', 'split', 'unstack', 'ident', 'ctrl',
         'group', 'var', 'cond')


@st.composite
def strategy(draw):
    node = st.fixed_dictionaries({
        'k': st.sampled_from(KINDS), 'in': st.lists(st.integers(0, 40),
                                                    min_size=1, max_size=3),
        'ctrl': st.lists(st.integers(0, 40), max_size=2)})
    c = {'nodes': draw(st.lists(node, min_size=1, max_size=20)),
         'seeds': draw(st.lists(st.integers(0, 60), min_size=1, max_size=4)),
         'stop': draw(st.none() | st.lists(st.integers(0, 60), max_size=4)),
         'single': draw(st.sampled_from(['list', 'tuple', 'single'])),
         'chain': draw(st.sampled_from([0] * 40 + [1500]))}
    return c


def check(case):
    import tensorflow as tf
    from zhusuan.framework.utils import get_backward_ops
    with fresh_graph() as g:
        ts = [tf.constant(np.zeros(2, 'float32'))]
        allops = []
        for nd in case['nodes']:
            ins = [ts[i % len(ts)] for i in nd['in']]
            deps = [ts[i % len(ts)].op for i in nd['ctrl']]
            if nd['k'] == 'ctrl' or nd['k'] == 'group':
                deps = deps or [ts[-1].op]
            else:
                deps = deps[:1] if len(nd['ctrl']) == 2 else []
            if nd['k'] == 'group':
                deps = [tf.group(*deps)]
            with tf.control_dependencies(deps):
                k = nd['k']
                if k == 'const':
                    out = [tf.constant(np.ones(2, 'float32'))]
                elif k == 'ph':
                    out = [tf.placeholder(tf.float32, [2])]
                elif k == 'add':
                    out = [tf.add(ins[0], ins[-1])]
                elif k == 'addn':
                    out = [tf.add_n(ins)]
                elif k == 'split':
                    out = [tf.tile(t, [2]) for t in tf.split(ins[0], 2)]
                    out += list(tf.split(tf.concat([ins[0], ins[0]], 0), 2))
                elif k == 'unstack':
                    out = list(tf.unstack(tf.stack(ins)))
                elif k == 'var':
                    v = tf.get_variable('v%d' % len(ts), shape=[2])
                    out = [v.read_value() if hasattr(v, 'read_value')
                           else tf.identity(v)]
                elif k == 'cond':
                    out = [tf.where(tf.greater(ins[0], ins[-1]), ins[0],
                                    ins[-1])]
                else:
                    out = [tf.identity(ins[0])]
            ts.extend(out)
        for _ in range(case['chain']):
            ts.append(tf.negative(ts[-1]))
        seeds = [ts[-1 - i % len(ts)] if i % 3 else ts[i % len(ts)]
                 for i in case['seeds']]
        stop = None if case['stop'] is None else \
            [ts[i % len(ts)] for i in case['stop']]
        if case['single'] == 'single':
            seeds = seeds[:1]
            got = get_backward_ops(seeds[0], treat_as_inputs=stop)
        elif case['single'] == 'tuple':
            got = get_backward_ops(tuple(seeds), treat_as_inputs=stop)
        else:
            got = get_backward_ops(seeds, stop)
        require(isinstance(got, list), 'returned a %s', type(got))
        # independent reachability over operations
        stopset = {(t.op.name, t.value_index) for t in (stop or [])}
        want, edges = {}, {}
        todo = [t.op for t in seeds if (t.op.name, t.value_index)
                not in stopset]
        while todo:
            op = todo.pop()
            if op.name in want:
                continue
            want[op.name] = op
            pre = [t.op for t in op.inputs if (t.op.name, t.value_index)
                   not in stopset] + list(op.control_inputs)
            edges[op.name] = [p.name for p in pre]
            todo.extend(pre)
        names = [op.name for op in got]
        require(all(isinstance(op, tf.Operation) for op in got),
                'not all Operations')
        require(len(set(names)) == len(names), 'an operation is listed '
                'twice: %s', names)
        missing = sorted(set(want) - set(names))
        extra = sorted(set(names) - set(want))
        require(not missing, 'operations missing: %s', missing)
        require(not extra, 'operations that are not predecessors: %s', extra)
        pos = {n: i for i, n in enumerate(names)}
        for n in names:
            for p in edges[n]:
                require(pos[p] < pos[n], '%s listed before its input %s', n,
                        p)
        cut = bool(stopset) and any(
            (t.op.name, t.value_index) in stopset
            for op in want.values() for t in op.inputs)
        labels = (['stopped at an input'] if cut else []) + \
            (['multi-seed'] if len(set(seeds_id(seeds))) > 1 else []) + \
            (['control edge'] if any(op.control_inputs
                                     for op in want.values()) else []) + \
            (['seed dropped'] if any((t.op.name, t.value_index) in stopset
                                     for t in seeds) else []) + \
            (['deep chain'] if case['chain'] else [])
        shared = len(names) >= 4
    return Info(shared, labels)


def seeds_id(seeds):
    return [(t.op.name, t.value_index) for t in seeds]


SUBCHECKS = [Sub('graphs', strategy, check)]
