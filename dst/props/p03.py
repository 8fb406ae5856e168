"""P03: best-model file and early stopping over the whole history."""
import math
import os

import numpy as np
import torch

from dst import core
from dst import train as T
from dst.core import Guard, HarnessError, SimKill, Violation
from dst.props.p01 import killer
from dst.seams import SimClock, SimDisk, bypass

ID = 'P03'
RUNS = {'quick': 4000, 'thorough': 120000}
BLOCK = 50
IMPORTS = ['torch.utils.serialization.config']
RULE = ('A case is a training configuration whose validation results follow a '
        'seeded script (ties, plateaus, rises, negative values; a function of '
        'the weights, so the same after a restart) and a list of kills; '
        'non-trivial when some validation did not improve and either early '
        'stopping was decided or a killed run was resumed.')
STATE_MEASURE = ('(criterion, direction, interval, eval mode, sequence of '
                 'criterion values as ranks, stopping step)')
REAL = ['Trainer.fit, QuantumTrainer, PytorchTrainer, Checkpoint, optimisers, '
        'Dataset']
STUB = ['model forward pass', 'loss and metrics (scripted)', 'disk', 'clock',
        'process boundary']
ASSUMPTIONS = [
    'Among equal best values the earliest validation counts as the best.',
    'A run that stopped early and saved its last checkpoint is complete: '
    'resuming it with the same stopping rule trains no further.']
SHRINK_LISTS = {'kills'}
NAMES = ('m1', 'm2')


def gen(r, i, tier):
    cfg = T.gen_config(r, models=['stubq', 'stubq', 'stubt'])
    cfg['epochs'] = r.choice([2, 3, 4, 6, 8])
    cfg['n_train'] = r.choice([1, 2, 3])
    cfg['n_val'] = r.choice([1, 1, 2, 3])
    cfg['metrics'] = r.choice([[], ['m1'], ['m1', 'm2']])
    cfg['noise'] = 0
    cfg['es_criterion'] = r.choice([None] + cfg['metrics'] * 2)
    cfg['minimize'] = r.random() < 0.5 if cfg['es_criterion'] else True
    if r.random() < 0.1:
        cfg['minimize'] = not cfg['minimize']
    cfg['es_interval'] = r.choice([None, 1, 1, 2, 2, 3, 4])
    if cfg['model'] == 'stubq':
        cfg['opt'] = 'spsa'
        cfg['hyper'] = {'a': 0.2, 'c': 0.06, 'A': 1.0}
    values = r.choice([[0, 1], [0, 1, 2], [-2, -1, 0, 1, 2, 3],
                       [0.25 * k for k in range(-8, 8)], [5], [-1, -2, -3]])
    n = 0 if r.random() < 0.4 else r.choice([1, 1, 2, 3])
    return {'cfg': cfg, 'values': values, 'again': r.random() < 0.3, 'script': r.randrange(1 << 30),
            'kills': [{'at': r.random(), 'frac': r.choice([0, .5, 1])}
                      for _ in range(n)]}


def shrinks(case):
    from dst.props import p01
    for c in p01.shrinks(case):
        if c['cfg']['n_val'] and c['cfg']['metrics'] == case['cfg']['metrics']:
            yield c


class Script:
    """Validation results as a pure function of (weights, batch, name)."""

    def __init__(self, case):
        self.case = case
        self.cfg = case['cfg']
        self.model = None
        self.vals = []               # of the current process
        self.open = None
        self.seen = {}               # weights -> ordinal, across processes

    def wkey(self):
        return core.digest([w.tobytes().hex()
                            for w in T.weights_of(self.model)])

    def value(self, name, y):
        r = core.rng_for(self.case['script'], name, self.wkey(),
                         float(np.asarray(y).ravel()[0]))
        return float(r.choice(self.case['values']))

    def is_val(self, y):
        return float(np.asarray(y if not torch.is_tensor(y)
                                else y.detach().numpy()).ravel()[0]) >= 2

    def loss(self, y_hat, y):
        if not self.is_val(y):
            return (T.t_loss if torch.is_tensor(y_hat) else T.q_loss)(y_hat, y)
        T.at('loss', 0.001)
        v = self.value('loss', y)
        self.record('loss', v, len(y))
        return torch.tensor(v, dtype=torch.float64) \
            if torch.is_tensor(y_hat) else v

    def metric(self, name):
        def f(y_hat, y):
            T.at('metric', 0.001)
            if not self.is_val(y):
                return 0.5
            v = self.value(name, y)
            self.record(name, v, len(y))
            return v
        return f

    def record(self, name, v, n):
        if self.open is not None:
            self.open['res'].setdefault(name, []).append((n, v))


def data(cfg):
    _, pool = T.MODELS[cfg['model']]
    nt, nv = cfg['n_train'], cfg['n_val']
    train = T.WatchedDataset(
        pool[:nt], [[float(i % 2), float((i + 1) % 2)] for i in range(nt)],
        batch_size=cfg['batch'], shuffle=cfg['shuffle'])
    val = T.WatchedDataset(
        pool[5:5 + nv], [[float(2 + i), 0.] for i in range(nv)],
        batch_size=cfg['vbatch'], shuffle=False)
    val.role = 'v'
    return train, val


def one_process(case, root, sim, resume, ctx, pid, script, cfg=None):
    cfg = cfg or case['cfg']
    T.seed_globals(cfg['seed'] + pid * 977)
    with SimClock(ctx) as clock, SimDisk(root, ctx=ctx) as disk:
        sim.clock, sim.disk = clock, disk
        disk.hook = sim.disk_hook
        T.CURRENT[0] = sim
        try:
            model = T.fresh_model(cfg)
            script.model = model
            train, val = data(cfg)
            fns = {n: script.metric(n) for n in cfg['metrics']}
            trainer = T.fresh_trainer(
                cfg, model, os.path.join(root, 'run'), resume,
                functions=fns, loss=script.loss)
            T.fit(cfg, trainer, train, val)
            if disk.frozen:
                raise SimKill('killed')
            return trainer, train
        finally:
            T.CURRENT[0] = None


class Recorder:
    """Follows the validations of one process through its events."""

    def __init__(self, script, start=0, check=None):
        self.script = script
        self.list = []               # finished or running validations
        self.step = start
        self.check = check

    def __call__(self, k, kind):
        s = self.script
        if kind == 'batch':
            self.close()
            self.step += 1
        elif kind == 'validation':
            s.open = {'step': self.step, 'res': {}, 'closed': False,
                      'weights': T.weights_of(s.model)}
            self.list.append(s.open)
        elif kind == 'epoch':
            self.close()
        if self.check is not None:
            self.check(k, kind)

    def close(self):
        if self.script.open is not None:
            self.script.open['closed'] = True
            self.script.open = None


def wmean(pairs):
    return sum(n * v for n, v in pairs) / sum(n for n, _ in pairs)


def run(case, ctx):
    cfg = case['cfg']
    free = dict(cfg, es_interval=None)
    crit = cfg['es_criterion'] or 'loss'
    sign = 1 if cfg['minimize'] else -1
    with T.Scratch() as ref_root, T.Scratch() as root:
        # the logical history, from an uninterrupted run without stopping
        script = Script(case)
        rec = Recorder(script)
        sim = T.Sim(None)
        sim.action = rec
        try:
            tr, train = one_process(case, ref_root, sim, False, None, 0,
                                    script, free)
        except Exception as e:
            raise HarnessError(f'reference run failed: {e!r}') from e
        rec.close()
        hist = rec.list
        total_events = sim.n
        bpe = train.batches_per_epoch
        every = cfg['eval_interval'] * (
            bpe if cfg['eval_mode'] == 'epoch' else 1)
        steps = [h['step'] for h in hist]
        if steps != [s for s in range(1, cfg['epochs'] * bpe + 1)
                     if s % every == 0]:
            raise Violation('validation-schedule',
                            f'validated at steps {steps}, interval {every}')
        vals = [sign * wmean(h['res'][crit]) for h in hist]
        # when it must stop, and what it must keep
        stop = None
        n = cfg['es_interval']
        if n is not None:
            for j in range(n, len(vals)):
                if all(vals[j - n] < v for v in vals[j - n + 1:j + 1]):
                    stop = j
                    break
        last = len(vals) - 1 if stop is None else stop
        end_step = cfg['epochs'] * bpe if stop is None else steps[stop]
        if n is None:
            ctx.probe('no_early_stopping')
        else:
            ctx.probe('early_stopped' if stop is not None
                      else 'ran_to_the_end')
        ranks = [sorted(set(vals)).index(v) for v in vals]
        ctx.state(crit, sign, n, cfg['eval_mode'], ranks, end_step)

        def best(k):
            """Index of the first best validation among the first k."""
            return min(range(k), key=lambda j: (vals[j], j)) if k else None

        path = os.path.join(root, 'run', 'best_model.lt')
        ck = os.path.join(root, 'run', 'model.lt')
        executed = 0                 # validations evaluated in this lineage
        stamp = [None, None]
        checked = [0]

        def holds():
            with bypass():
                return holds_()

        def holds_():
            try:
                st = os.stat(path)
            except OSError:
                return None
            key = (st.st_ino, st.st_mtime_ns, st.st_size)
            if stamp[0] != key:
                stamp[0] = key
                with Guard('best-model-unreadable', 'reading best_model.lt'):
                    e = T.entries(path)
                m = T.fresh_model(cfg)
                with Guard('best-model-unreadable', 'loading best_model.lt'):
                    m.load(path)
                w = T.weights_of(m)
                same = [j for j, h in enumerate(hist)
                        if T.diff(w, h['weights']) is None]
                stamp[1] = (same, e)
            return stamp[1]

        left = {None}                # what a run that began again had left

        def verify(low, high, when):
            checked[0] += 1
            got = holds()
            allowed = {best(k) for k in range(low, high + 1)}
            if low == 0:
                allowed |= left
            if got is None:
                if None not in allowed:
                    raise Violation('best-model-wrong',
                                    f'{when}: no best_model.lt after '
                                    f'{low} validations')
                return
            same, e = got
            if not any(j in same for j in allowed if j is not None):
                raise Violation(
                    'best-model-wrong',
                    f'{when}: best_model.lt holds the weights of validation '
                    f'{same}, expected {sorted(a for a in allowed if a is not None)}; '
                    f'{"minimise" if sign > 0 else "maximise"} {crit}: '
                    f'{[sign * v for v in vals[:high]]}')

        kills = list(case['kills'])
        pid = 0
        resumed = again = False
        while True:
            pid += 1
            sim = T.Sim(ctx)
            sc = Script(case)
            fired = []
            kill = None
            if kills:
                k = kills.pop(0)
                kill = killer(sim, int(k['at'] * total_events), k['frac'],
                              fired)
            resume = os.path.exists(ck)
            start = 0
            if resume:
                start = T.entries(ck)['step']
                resumed = True
                ctx.probe('resumed')
                if start >= end_step:
                    ctx.probe('resumed_when_complete')
            rec = Recorder(sc, start)
            before = sum(1 for s in steps if s <= start)
            if not resume:
                left |= {best(k) for k in range(executed + 1)}
                executed = 0

            def action(k, kind):
                nonlocal executed
                rec(k, kind)
                full = before + sum(h['closed'] for h in rec.list)
                executed = max(executed, before + len(rec.list))
                if kind in ('batch', 'validation', 'epoch') or \
                        kind.startswith('disk:'):
                    # validations rolled back by a kill may count or not,
                    # those restored or finished in this process must
                    verify(full, executed, f'process {pid} at event {k} '
                                           f'({kind})')
                if rec.step > end_step:
                    raise Violation(
                        'early-stopping',
                        f'training went on to step {rec.step}, should have '
                        f'stopped after step {end_step}; '
                        f'{[sign * v for v in vals]} interval {n}')
                if kill:
                    kill(k, kind)
            sim.action = action
            try:
                with Guard('resumed-run-fails' if resume else 'run-fails',
                           f'process {pid}'):
                    tr, _ = one_process(case, root, sim, resume, ctx, pid, sc)
            except SimKill:
                ctx.event('killed', pid, fired, executed)
                continue
            rec.close()
            if rec.step != end_step:
                raise Violation(
                    'early-stopping',
                    f'training ended after step {rec.step}, expected '
                    f'{end_step}; {[sign * v for v in vals]} interval {n} '
                    f'{"min" if sign > 0 else "max"}')
            if not case.get('again') or again:
                break
            # a complete run is resumed once more
            again, kills = True, []
        verify(last + 1, last + 1, 'at the end')
        ctx.event('end', end_step, [sign * v for v in vals], checked[0])
        flat = any(vals[j] >= min(vals[:j]) for j in range(1, last + 1))
        if flat and (n is not None or resumed):
            ctx.nontrivial = True
