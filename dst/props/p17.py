"""P17: every epoch delivers each example exactly once with its target."""
from collections import Counter
import random

import numpy

from dst import sched
from dst.core import Guard, Violation

from lambeq.backend import numerical_backend as nb
from lambeq.training.dataset import Dataset

ID = 'P17'
RUNS = {'quick': 40000, 'thorough': 2000000}
BLOCK = 400
IMPORTS = ['jax.numpy']
RULE = ('A case is one or two datasets and a history of opening, advancing, '
        'interleaving and abandoning passes, with backend switches, failing '
        'reads of the underlying data, changes to delivered batches and '
        'indexing; or several threads making passes over one dataset under a '
        'schedule of preemptions. Non-trivial when passes overlapped, were '
        'abandoned, or a fault fired.')
STATE_MEASURE = ('(dataset size, batch size, shuffling, sequence of '
                 'operations or thread switches)')
REAL = ['Dataset', 'numerical_backend', 'Python random module']
STUB = ['lists holding the data (reads may fail)', 'thread scheduler']
ASSUMPTIONS = [
    'A pass that ended with an error is over; a new pass starts afresh.',
    'A batch may be given in the backend active when the pass was opened, '
    'when it began or when the batch was taken.']
SHRINK_LISTS = {'ops', 'threads', 'schedule', 'passes'}
NAMES = ['numpy', 'pytorch']


class Injected(Exception):
    pass


def gen_ds(r):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 12])
    return {'n': n, 'batch': r.choice([0, 0, 1, 2, 3, 4, 5, n, n + 1, 100]),
            'shuffle': r.random() < 0.6,
            'same': r.random() < 0.2,
            'target': r.choice(['int', 'int', 'float', 'onehot', 'array']),
            'hold': r.choice(['list', 'list', 'list', 'tuple', 'array'])}


def gen(r, i, tier):
    ds = [gen_ds(r) for _ in range(r.choice([1, 1, 2]))]
    names = NAMES + (['jax'] if r.random() < 0.1 else [])
    case = {'sets': ds, 'seed': r.randrange(1000), 'names': names}
    if r.random() < 0.25:
        n = r.choice([2, 2, 3])
        case['threads'] = [
            {'passes': [[r.randrange(len(ds)), r.choice([None, None, 1, 2]),
                         r.choice(names)]
                        for _ in range(r.choice([1, 2]))]}
            for _ in range(n)]
        case['schedule'] = sched.gen_schedule(r, n)
        case['opcodes'] = r.random() < 0.3
        return case
    ops = []
    for _ in range(r.choice([3, 6, 10, 16])):
        x = r.random()
        if x < 0.2:
            ops.append(['open', r.randrange(len(ds)), r.random() < 0.1])
        elif x < 0.5:
            ops.append(['next', r.randrange(6), r.choice([1, 1, 2, 3])])
        elif x < 0.6:
            ops.append(['finish', r.randrange(6)])
        elif x < 0.66:
            ops.append(['drop', r.randrange(6)])
        elif x < 0.72:
            ops.append(['enter', r.choice(names)])
        elif x < 0.77:
            ops.append(['leave'])
        elif x < 0.83:
            ops.append(['item', r.randrange(len(ds)), r.randrange(-14, 14)])
        elif x < 0.87:
            ops.append(['slice', r.randrange(len(ds)),
                        r.choice([None, 0, 1, -2]), r.choice([None, 2, -1]),
                        r.choice([None, None, 2, -1])])
        elif x < 0.9:
            ops.append(['seed', r.randrange(50)])
        elif x < 0.96:
            ops.append(['fail', r.randrange(len(ds)), r.choice(['x', 'y']),
                        r.choice([0, 0, 1, 2, 5])])
        else:
            ops.append(['epoch', r.randrange(len(ds))])
    case['ops'] = ops
    return case


class Disk:
    """Arms failures of reading elements."""

    def __init__(self):
        self.left = None

    def hit(self):
        if self.left is None:
            return
        if self.left:
            self.left -= 1
            return
        self.left = None
        raise Injected('cannot read the data')


class Lazy(list):
    """A list whose elements are read from somewhere."""

    disk = None

    def __getitem__(self, i):
        if self.disk:
            self.disk.hit()
        return super().__getitem__(i)

    def __iter__(self):
        for v in super().__iter__():
            if self.disk:
                self.disk.hit()
            yield v


class Item:
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f'Item({self.i})'


class Set:
    """A dataset and what it should deliver."""

    def __init__(self, spec):
        n = spec['n']
        self.spec, self.n = spec, n
        self.items = [Item(i) for i in range(n)]
        if spec['same'] and n > 1:
            # one object is listed twice, with different targets
            self.items[-1] = self.items[0]
        self.labels = [self.label(i, spec['target']) for i in range(n)]
        self.dx, self.dy = Disk(), Disk()
        self.hold = spec['hold']
        if self.hold == 'tuple':
            x, y = tuple(self.items), tuple(self.labels)
        elif self.hold == 'array':
            x = numpy.empty(n, dtype=object)
            x[:] = self.items
            y = numpy.array(self.labels)
        else:
            x, y = Lazy(self.items), Lazy(self.labels)
            x.disk, y.disk = self.dx, self.dy
        self.x, self.y = x, y
        self.batch = spec['batch'] or n
        with Guard('constructor', f'Dataset of {n} examples with batch size '
                                  f'{spec["batch"]}'):
            self.ds = Dataset(x, y, batch_size=spec['batch'],
                              shuffle=spec['shuffle'])

    @staticmethod
    def label(i, how):
        if how == 'int':
            return i
        if how == 'float':
            return i + 0.5
        if how == 'onehot':
            return [i, 1, 0]
        return numpy.array([i, -i])

    def tag(self, y):
        """The index an answer's target stands for."""
        y = numpy.asarray(y)
        return int(y.flatten()[0])

    def pair(self, x, y, where):
        """Index of the example; fails if the target is not its own."""
        if not isinstance(x, Item):
            raise Violation('example', f'{where}: {x!r} is not an example')
        i = self.tag(y)
        if not 0 <= i < self.n or self.items[i] is not x or not \
                numpy.array_equal(numpy.asarray(y, dtype=float),
                                  numpy.asarray(self.labels[i], dtype=float)):
            raise Violation('target', f'{where}: {x} was given target '
                                      f'{numpy.asarray(y).tolist()}')
        return i

    def check_unchanged(self, where):
        a = list(list.__iter__(self.x)) if isinstance(self.x, list) \
            else list(self.x)
        b = list(list.__iter__(self.y)) if isinstance(self.y, list) \
            else list(self.y)
        if len(a) != self.n or any(p is not q
                                   for p, q in zip(a, self.items)) \
                or len(b) != self.n or not all(
                    numpy.array_equal(p, q)
                    for p, q in zip(b, self.labels)):
            raise Violation('changed', f'{where}: the data of the dataset '
                                       f'changed to {a}, {b}')
        if len(self.ds) != self.n:
            raise Violation('changed', f'{where}: length {len(self.ds)}')


class Pass:
    def __init__(self, s, name, k, lazy):
        self.s, self.k = s, k
        self.seen = []
        self.sizes = []
        self.names = {name}
        self.started = False
        self.over = False
        self.dead = False
        self.it = iter(s.ds)

    def step(self, current):
        s, where = self.s, f'pass {self.k}'
        if not self.started:
            self.names.add(current)
            self.started = True
        try:
            xs, ys = next(self.it)
        except StopIteration:
            self.finish()
            return None
        a = numpy.asarray(ys)
        ok = self.names | {current}
        if not any(isinstance(ys, array_type(n)) for n in ok):
            raise Violation('backend', f'{where}: targets are a '
                            f'{type(ys).__name__}, backends {sorted(ok)}')
        if len(xs) != len(a):
            raise Violation('batch', f'{where}: {len(xs)} examples and '
                                     f'{len(a)} targets in one batch')
        got = [s.pair(x, y, where) for x, y in zip(xs, a)]
        self.seen += got
        self.sizes.append(len(got))
        want = min(s.batch, s.n - sum(self.sizes[:-1]))
        if len(got) != want:
            raise Violation('batch', f'{where}: batch {len(self.sizes)} has '
                            f'{len(got)} examples, expected {want} '
                            f'(n={s.n}, batch size {s.batch})')
        twice = [i for i, c in Counter(self.seen).items() if c > 1]
        if twice:
            raise Violation('twice', f'{where}: examples {twice} delivered '
                                     f'twice: {self.seen}')
        if not s.spec['shuffle'] and self.seen != list(range(len(self.seen))):
            raise Violation('order', f'{where}: {self.seen}')
        return xs, ys

    def finish(self):
        self.over = True
        s = self.s
        if sorted(self.seen) != list(range(s.n)):
            raise Violation('missing', f'pass {self.k} ended after '
                            f'{self.seen} of {s.n} examples')
        if s.ds.batches_per_epoch != len(self.sizes):
            raise Violation('batch', f'{len(self.sizes)} batches, but '
                            f'batches_per_epoch={s.ds.batches_per_epoch}')


def array_type(name):
    if name == 'numpy':
        return numpy.ndarray
    if name == 'pytorch':
        import torch
        return torch.Tensor
    import jax
    return jax.Array


def run(case, ctx):
    random.seed(case['seed'])
    sets = [Set(s) for s in case['sets']]
    if not sets:
        return
    if 'threads' in case:
        run_threads(case, sets, ctx)
    else:
        run_ops(case, sets, ctx)


def run_ops(case, sets, ctx):
    passes, trail = [], []
    stack = [('numpy', None)]
    nb.set_backend('numpy')
    try:
        for op in case['ops']:
            ctx.steps += 1
            kind = op[0]
            cur = stack[-1][0]
            trail.append(kind)
            if kind == 'open':
                s = sets[op[1] % len(sets)]
                with Guard('pass', 'opening a pass', allow=(Injected,)):
                    try:
                        passes.append(Pass(s, cur, len(passes), op[2]))
                    except Injected:
                        ctx.fault('read_failed')
                if sum(not p.over and not p.dead for p in passes) > 1:
                    ctx.nontrivial = True
                    ctx.probe('overlapping_passes')
            elif kind in ('next', 'finish') and passes:
                p = passes[op[1] % len(passes)]
                if not p.over and not p.dead:
                    advance(p, op[2] if kind == 'next' else 1000, cur, ctx)
                    trail.append((p.k, len(p.seen)))
            elif kind == 'drop' and passes:
                p = passes[op[1] % len(passes)]
                if not p.dead:
                    p.dead, p.it = True, None
                    if not p.over:
                        ctx.fault('pass_abandoned')
                        ctx.nontrivial = True
            elif kind == 'enter':
                cm = nb.backend(op[1])
                cm.__enter__()
                stack.append((op[1], cm))
                ctx.fault('backend_switch')
            elif kind == 'leave' and len(stack) > 1:
                stack.pop()[1].__exit__(None, None, None)
            elif kind == 'item':
                index(sets[op[1] % len(sets)], op[2], cur, ctx)
            elif kind == 'slice':
                slices(sets[op[1] % len(sets)], slice(*op[2:]), ctx)
            elif kind == 'seed':
                random.seed(op[1])
            elif kind == 'fail':
                s = sets[op[1] % len(sets)]
                (s.dx if op[2] == 'x' else s.dy).left = op[3]
            elif kind == 'epoch':
                s = sets[op[1] % len(sets)]
                for d in (s.dx, s.dy):
                    d.left = None
                p = Pass(s, cur, len(passes), False)
                advance(p, 1000, cur, ctx)
            ctx.event(op, [len(p.seen) for p in passes])
        # faults stop: every dataset delivers a full pass
        for s in sets:
            for d in (s.dx, s.dy):
                d.left = None
            s.check_unchanged('at the end')
            with Guard('pass', 'a pass after the faults'):
                p = Pass(s, stack[-1][0], 'final', False)
            advance(p, 1000, stack[-1][0], ctx)
            if not p.over:
                raise Violation('missing', 'the final pass did not end')
    finally:
        while len(stack) > 1:
            stack.pop()[1].__exit__(None, None, None)
    ctx.state([(s.n, s.batch, s.spec['shuffle']) for s in sets], trail)


def advance(p, n, cur, ctx):
    for _ in range(n):
        with Guard('pass', f'pass {p.k}', allow=(Injected,)):
            try:
                got = p.step(cur)
            except Injected:
                ctx.fault('read_failed')
                ctx.nontrivial = True
                p.dead, p.it = True, None
                break
        ctx.steps += 1
        if got is None:
            break
        xs, ys = got
        # what the caller does to its batch must not reach the dataset
        if isinstance(xs, list):
            xs.reverse()
            xs.append('mine')
        if isinstance(ys, numpy.ndarray) and ys.flags.writeable:
            ys[...] = -1
        elif hasattr(ys, 'fill_'):
            ys.fill_(-1)
    p.s.check_unchanged(f'pass {p.k}')


def index(s, i, cur, ctx):
    for d in (s.dx, s.dy):
        d.left = None
    try:
        with Guard('index', f'dataset[{i}]', allow=(IndexError,)):
            x, y = s.ds[i]
    except IndexError:
        if -s.n <= i < s.n:
            raise Violation('index', f'IndexError for [{i}] of {s.n}')
        return
    if not -s.n <= i < s.n:
        raise Violation('index', f'[{i}] of {s.n} gave {x}')
    want = i % s.n
    if x is not s.items[want] or s.pair(x, y, f'[{i}]') != want:
        raise Violation('index', f'[{i}] of {s.n} gave {x}')
    if not isinstance(y, array_type(cur)):
        raise Violation('backend', f'[{i}] gave a {type(y).__name__}')


def slices(s, sl, ctx):
    for d in (s.dx, s.dy):
        d.left = None
    want = list(range(s.n))[sl]
    if s.hold == 'array' and s.n == 0 or not want:
        return
    if sl.step is not None and sl.step < 0 and s.hold == 'array':
        # torch refuses numpy views with negative strides
        return
    with Guard('index', f'dataset[{sl}]'):
        xs, ys = s.ds[sl]
    ys = numpy.asarray(ys)
    got = [s.pair(x, y, f'[{sl}]') for x, y in zip(xs, ys)]
    if got != want or len(xs) != len(ys):
        raise Violation('index', f'[{sl}] of {s.n} gave {got}')


def run_threads(case, sets, ctx):
    nb.set_backend('numpy')
    names = case['names']

    def body(tid, spec):
        def go():
            for j, (k, stop, name) in enumerate(spec['passes']):
                s = sets[k % len(sets)]
                with nb.backend(name):
                    p = Pass(s, name, f'{tid}.{j}', False)
                    n = 0
                    while not p.over and (stop is None or n < stop):
                        p.step(name)
                        sched.touch('step')
                        n += 1
            return True
        return go

    fns = [body(t, spec) for t, spec in enumerate(case['threads'])]
    if not fns:
        return
    focus = ['lambeq/training/dataset.py', '~step', 'random.py']
    base = None
    if isinstance(case['schedule'], list):
        base = sched.profile_of(
            sched.sequential(fns, case['opcodes'], focus=focus))
    s = sched.concurrent(fns, case['schedule'], base, case['opcodes'],
                         focus=focus)
    ctx.steps += s.total
    ctx.fault('thread_switch', len(s.switches))
    if s.switches:
        ctx.nontrivial = True
    for t in s.threads:
        if isinstance(t.error, Violation):
            raise t.error
        if t.error is not None:
            with Guard('pass', f'thread {t.n}'):
                raise t.error
    for q in sets:
        q.check_unchanged('after the threads')
    ctx.event([t.n for t in s.threads], s.switches)
    ctx.state([(q.n, q.batch, q.spec['shuffle']) for q in sets], s.switches)
