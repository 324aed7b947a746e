"""Legal schedules of a TensorFlow graph, chosen by the case.

TensorFlow runs the operations of a graph in any order its data and control
edges allow.  Which order an ordinary run happens to take depends on thread
timing and hardly ever varies, so a missing ordering between the reads and the
writes of a variable goes unnoticed.  `impose` draws one order of the
operations behind a fetch that respects all existing edges, and pins it with
additional control edges: the run then is one the graph always allowed.
"""
import heapq

import numpy as np

FLOW = {'Enter', 'Exit', 'NextIteration', 'Switch', 'Merge', 'LoopCond',
        'RefEnter', 'RefExit', 'RefNextIteration', 'RefSwitch', 'RefMerge',
        'Placeholder', 'Const', 'VariableV2', 'VarHandleOp'}
WRITES = ('Assign', 'Scatter', 'ResourceScatter', 'ResourceApply', 'Apply')


def peek(tf, v):
    """A read of variable v of the harness's own, outside any schedule."""
    t = v.op.outputs[0]
    if t.dtype == tf.resource:
        return tf.raw_ops.ReadVariableOp(resource=t, dtype=v.dtype.base_dtype)
    return tf.identity(t)


class Checkpoint(object):
    """Values of all global variables, carried from session to session."""

    def __init__(self, tf):
        vs = tf.global_variables()
        self.read = [peek(tf, v) for v in vs]
        self.phs = [tf.placeholder(v.dtype.base_dtype, None) for v in vs]
        self.write = [tf.assign(v, p, validate_shape=False).op
                      for v, p in zip(vs, self.phs)]

    def move(self, old, new):
        """Everything a restarted process has: the saved variables."""
        vals = old.run(self.read)
        old.close()
        new.run(self.write, dict(zip(self.phs, vals)))
        return new


def ops_of(fetches):
    out = []

    def visit(f):
        if isinstance(f, dict):
            for x in f.values():
                visit(x)
        elif isinstance(f, (list, tuple)):
            for x in f:
                visit(x)
        elif hasattr(f, 'op'):
            # a variable is fetched through its snapshot
            out.append(f.value().op if hasattr(f, 'assign_add') else f.op)
        else:
            out.append(f)
    visit(fetches)
    return out


def parents(op):
    return [t.op for t in op.inputs] + list(op.control_inputs)


def behind(ops):
    seen, todo = set(), list(ops)
    while todo:
        op = todo.pop()
        if op not in seen:
            seen.add(op)
            todo.extend(parents(op))
    return seen


def impose(fetches, keep, seed):
    """Pin a random legal order on what is run for `fetches`.  What runs for
    `keep` (fetches of other runs) must not come to depend on it.  Returns the
    number of edges added."""
    r = np.random.RandomState(seed % 2 ** 32)
    all_ops = sorted(behind(ops_of(fetches)), key=lambda o: o._id)
    kept = behind(ops_of(keep))
    # a topological order of everything, back edges of loops left out
    order, state = [], {}
    for root in all_ops:
        todo = [(root, False)]
        while todo:
            op, done = todo.pop()
            if done:
                order.append(op)
                continue
            if op in state:
                continue
            state[op] = True
            todo.append((op, True))
            todo.extend((p, False) for p in parents(op)
                        if p not in state and p.type not in (
                            'NextIteration', 'RefNextIteration'))
    pos = {op: i for i, op in enumerate(order)}
    # what each operation waits for, through loops as well
    anc = {op: 1 << pos[op] for op in order}
    changed = True
    while changed:
        changed = False
        for op in order:
            a = anc[op]
            for p in parents(op):
                a |= anc[p]
            if a != anc[op]:
                anc[op], changed = a, True
    # what may not run at all must not hold up the rest
    dead = {}
    for op in order:
        dead[op] = op.type in ('Switch', 'RefSwitch') or (
            op.type not in ('Merge', 'RefMerge', 'Exit', 'RefExit') and
            any(dead.get(p, False) for p in parents(op)))
    free = [op for op in order if op.type not in FLOW and op not in kept and
            not dead[op] and op._get_control_flow_context() is None]
    if len(free) < 2:
        return 0
    # priorities: a random permutation, in most schedules overruled by
    # picking some operations (mostly writes) that happen as early as they can
    prio = {op: 1e6 + r.rand() for op in free}
    writes = [op for op in free if op.type.startswith(WRITES)]
    if r.rand() < .85:
        picks = [writes[i] for i in r.permutation(len(writes))]
        for i in r.randint(0, len(free), size=r.randint(0, 4)):
            picks.insert(r.randint(0, len(picks) + 1), free[i])
        for level, w in enumerate(picks):
            for op in free:
                if anc[w] >> pos[op] & 1 and prio[op] >= 1e6:
                    prio[op] = level + r.rand() * .9
    # the nearest free operations each one waits for
    isfree, near, changed = set(free), dict.fromkeys(order, 0), True
    while changed:
        changed = False
        for op in order:
            w = near[op]
            for p in parents(op):
                w |= 1 << pos[p] if p in isfree else near[p]
            if w != near[op]:
                near[op], changed = w, True
    # Kahn's algorithm on the free operations by priority
    kids = {op: [] for op in free}
    left = {}
    byp = {pos[op]: op for op in free}
    for op in free:
        n, w = 0, near[op]
        while w:
            b = w & -w
            kids[byp[b.bit_length() - 1]].append(op)
            n += 1
            w ^= b
        left[op] = n
    heap = [(prio[op], pos[op]) for op in free if not left[op]]
    heapq.heapify(heap)
    line = []
    while heap:
        op = byp[heapq.heappop(heap)[1]]
        line.append(op)
        for k in kids[op]:
            left[k] -= 1
            if not left[k]:
                heapq.heappush(heap, (prio[k], pos[k]))
    assert len(line) == len(free)
    for a, b in zip(line, line[1:]):
        b._add_control_input(a)
    return len(line) - 1
