"""P13: the selected numerical backend is scoped to its block and thread."""
import numpy

from dst import sched
from dst.core import HarnessError, Violation

from lambeq.backend import numerical_backend as nb
from lambeq.backend.tensor import Box, Dim
from lambeq.training.dataset import Dataset

ID = 'P13'
RUNS = {'quick': 5000, 'thorough': 250000}
IMPORTS = ['jax.numpy']
RULE = ('A case is a set of threads, each with a program of nested backend '
        'blocks, overrides, failures and uses, and a schedule of '
        'preemptions; non-trivial when threads were switched inside a '
        'block or a block was left by an exception.')
STATE_MEASURE = ('distinct sequences of (thread, source line, thread) '
                 'switches')
REAL = ['numerical_backend', 'Dataset', 'tensor.Box', 'tensor.Diagram.eval',
        'Python threads']
STUB = ['thread scheduler (baton passed at traced source lines)']
ASSUMPTIONS = [
    'A block is entered and left in the same thread, in nesting order.',
    'Outside any block, set_backend in one thread may or may not become the '
    'default of others; only a thread\'s own view of it is checked.']
SHRINK_LISTS = {'threads', 'body', 'schedule', 'before'}
NAMES = ['numpy', 'pytorch', 'jax']


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def gen_body(r, depth, names, inside=False):
    out = []
    for _ in range(r.choice([1, 2, 2, 3])):
        k = r.random()
        if k < 0.42 and depth < 4:
            out.append({'op': 'block', 'name': r.choice(names + [None]),
                        'body': gen_body(r, depth + 1, names, True)})
        elif k < 0.5 and depth < 4:
            out.append({'op': 'try', 'body': gen_body(r, depth + 1, names,
                                                   inside)})
        elif k < 0.56:
            out.append({'op': 'raise', 'exc': r.choice(['boom', 'stop',
                                                        'interrupt'])})
        elif k < 0.60:
            out.append({'op': 'badblock',
                        'name': r.choice(['cupy', 'tensorflow'])})
        elif k < 0.68 and inside:
            out.append({'op': 'set', 'name': r.choice(names)})
        elif k < 0.78:
            out.append({'op': 'item'})
        elif k < 0.84:
            out.append({'op': 'iterate'})
        elif k < 0.9:
            out.append({'op': 'tensor'})
        elif k < 0.93:
            out.append({'op': 'eval'})
        else:
            out.append({'op': 'get'})
    return out


def gen(r, i, tier):
    names = NAMES if r.random() < 0.35 else ['numpy', 'pytorch']
    n = r.choice([1, 2, 2, 2, 3, 4])
    threads = []
    for _ in range(n):
        body = gen_body(r, 0, names)
        if r.random() < 0.7:
            body = [{'op': 'block', 'name': r.choice(names), 'body': body}]
        threads.append({'body': body})
    return {'threads': threads,
            'before': [r.choice(names)] if r.random() < 0.2 else [],
            'schedule': sched.gen_schedule(r, n),
            'opcodes': r.random() < 0.3}


def array_type(name):
    if name == 'numpy':
        return numpy.ndarray
    if name == 'pytorch':
        import torch
        return torch.Tensor
    import jax
    return jax.Array


class Program:
    """Interprets one thread's program next to a reference stack."""

    def __init__(self, tid, body, default, ctx, known_default):
        self.tid = tid
        self.body = body
        self.stack = [default]
        self.known = known_default
        self.blocks = []
        self.ctx = ctx
        self.left_by_exc = 0
        self.dataset = Dataset(['a', 'b', 'c'], [0, 1, 1], batch_size=2,
                               shuffle=False)
        self.box = Box('f', Dim(1), Dim(2), [1, 2])
        self.diagram = (Box('g', Dim(1), Dim(2), [3, 4])
                        >> Box('h', Dim(2), Dim(1), [1, 2]))

    def expected(self):
        return self.stack[-1]

    def fail(self, what, got):
        raise Violation(
            'wrong_backend', f'thread {self.tid}: {what} uses {got}, but the '
            f'innermost block of this thread selected {self.expected()} '
            f'(blocks: {self.stack})')

    def see(self, what):
        sched.touch('see')
        if self.expected() is None:
            return
        b = nb.get_backend()
        if b.name != self.expected():
            self.fail(what, b.name)

    def check_array(self, what, x):
        if self.expected() is None:
            return
        want = array_type(self.expected())
        if not isinstance(x, want):
            self.fail(what, type(x).__name__)

    def run(self):
        try:
            self.execute(self.body)
        except (Boom, Stop, KeyboardInterrupt):
            pass
        if len(self.stack) != 1:
            raise HarnessError('reference stack')
        self.see('after all blocks')

    def execute(self, body):
        for op in body:
            getattr(self, 'op_' + op['op'])(op)
            self.see('after ' + op['op'])

    def op_block(self, op):
        name = op['name'] or self.expected()
        try:
            with nb.backend(op['name']) as b:
                self.stack.append(name)
                try:
                    if name is not None and b.name != name:
                        self.fail('the block\'s own value', b.name)
                    sched.touch('enter')
                    self.see('inside the block')
                    self.execute(op['body'])
                    sched.touch('leave')
                finally:
                    self.stack.pop()
        except (Boom, Stop, KeyboardInterrupt):
            self.left_by_exc += 1
            self.see('after leaving a block by an exception')
            raise

    def op_try(self, op):
        try:
            self.execute(op['body'])
        except (Boom, Stop, KeyboardInterrupt):
            self.see('where the exception was caught')

    def op_raise(self, op):
        raise {'boom': Boom, 'stop': Stop,
               'interrupt': KeyboardInterrupt}[op['exc']]()

    def op_badblock(self, op):
        try:
            with nb.backend(op['name']):
                raise Violation('bad_backend', f'backend {op["name"]} can be '
                                'selected though it is not available')
        except Violation:
            raise
        except (KeyError, ImportError, AttributeError, ValueError):
            self.left_by_exc += 1

    def op_set(self, op):
        nb.set_backend(op['name'])
        self.stack[-1] = op['name']

    def op_get(self, op):
        pass

    def op_item(self, op):
        x, y = self.dataset[1]
        self.check_array('Dataset item', y)

    def op_iterate(self, op):
        for x, y in self.dataset:
            self.check_array('Dataset batch', y)
            sched.touch('batch')

    def op_tensor(self, op):
        self.check_array('Tensor data', self.box.array)

    def op_eval(self, op):
        r = self.diagram.eval()
        if self.expected() is not None:
            if not isinstance(r, (int, float, complex, numpy.number)):
                self.check_array('evaluated tensor', r)
        if float(r) != 11.0:
            raise Violation('wrong_value', f'thread {self.tid}: evaluating '
                            f'gives {r} instead of 11')


def run(case, ctx):
    while_main = 'numpy'
    n = len(case['threads'])
    if not n:
        return
    if nb.get_backend().name != 'numpy':
        raise HarnessError('previous run left a backend selected')
    try:
        for name in case['before']:
            nb.set_backend(name)
            while_main = name
            if nb.get_backend().name != name:
                raise Violation('wrong_backend', f'set_backend({name!r}) is '
                                'not seen by the same thread')

        def programs():
            default = None if case['before'] else 'numpy'
            return [Program(i, t['body'], default, ctx, not case['before'])
                    for i, t in enumerate(case['threads'])]
        ps = programs()
        s0 = sched.sequential([p.run for p in ps], case['opcodes'])
        judge(s0, 'run one after the other')
        ps = programs()
        s = sched.concurrent([p.run for p in ps], case['schedule'],
                             sched.profile_of(s0), case['opcodes'])
        if s.deadlock:
            raise Violation('deadlock', 'threads that select backends wait '
                            'for each other for ever')
        ctx.steps += s.total
        ctx.sim_time += 0
        exc = sum(p.left_by_exc for p in ps)
        if s.switches or exc:
            ctx.nontrivial = True
        if s.switches:
            ctx.fault('thread_switch', len(s.switches))
        if exc:
            ctx.fault('exception_in_block', exc)
        ctx.state(s.switches)
        ctx.event(s.switches)
        judge(s, 'interleaved')
        if nb.get_backend().name != while_main:
            raise Violation('wrong_backend', 'after all threads ended the '
                            f'main thread sees {nb.get_backend().name}')
        for t, p in zip(case['threads'], ps):
            # every thread's blocks are over: its program must not have
            # changed what the main thread sees inside its own block
            with nb.backend('pytorch') as b:
                if b.name != 'pytorch' or nb.get_backend() is not b:
                    raise Violation('wrong_backend', 'main thread block')
    finally:
        reset()


def judge(s, how):
    for t in s.threads:
        if t.error is None:
            continue
        if isinstance(t.error, (Violation, HarnessError)):
            raise t.error
        raise Violation('exception', f'threads {how}: thread {t.n} raised '
                        f'{type(t.error).__name__}: {str(t.error)[:200]}')


def reset():
    nb.set_backend('numpy')
    if nb.get_backend().name != 'numpy':
        raise Violation('wrong_backend', 'set_backend("numpy") in the main '
                        f'thread gives {nb.get_backend().name}')
