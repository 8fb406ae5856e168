"""P05: seeded training depends only on its inputs and seed."""
import os
import random

import numpy as np
import torch

from dst import child, core
from dst import train as T
from dst.core import Guard, HarnessError, SimKill, Violation
from dst.props import p01
from dst.seams import SimClock, SimDisk

from lambeq.backend import numerical_backend as nb

ID = 'P05'
RUNS = {'quick': 3000, 'thorough': 100000}
IMPORTS = ['jax.numpy', 'torch.utils.serialization.config']
RULE = ('A case is a training configuration run twice: once plainly, once '
        'after a generated in-process history, with clock steps and stalls '
        'at chosen events, another log directory and another verbosity; '
        'a sample is also run in interpreters with other hash seeds. '
        'Non-trivial when the clock was stepped or something ran earlier.')
STATE_MEASURE = '(model, optimiser, kinds of history, events stepped at)'
REAL = ['QuantumTrainer', 'PytorchTrainer', 'Model.from_diagrams', 'Dataset',
        'optimisers', 'tqdm reporting', 'separate interpreters (hash seeds)']
STUB = ['clock', 'disk', 'forward pass of the analytic models']
ASSUMPTIONS = [
    'Nothing else draws from the global generators between construction of '
    'the trainer and the end of fit.',
    'Wall and monotonic clocks advance together except for injected steps.']
SHRINK_LISTS = {'jumps', 'prior'}
PRIOR = ['draw', 'train', 'backend', 'seed', 'failed', 'models', 'tqdm']


def gen(r, i, tier):
    cfg = T.gen_config(r)
    if cfg['model'] in ('numpy', 'torch', 'torchq'):
        cfg['epochs'] = min(cfg['epochs'], 2)
        cfg['n_train'] = min(cfg['n_train'], 2)
    return {'cfg': cfg,
            'jumps': [[r.random(), r.choice([-86400, -3600, -5, -0.02, 0.02,
                                             7, 3600])]
                      for _ in range(r.choice([0, 1, 2, 4]))],
            'stalls': [[r.random(), r.choice([0.5, 30, 4000])]
                       for _ in range(r.choice([0, 0, 1]))],
            'prior': [r.choice(PRIOR) for _ in range(r.choice([0, 1, 2]))],
            'prior_seed': r.randrange(1 << 20),
            'verbose': r.choice(['suppress', 'text', 'progress']),
            'report': r.choice([None, None, 'tensorboard', 'timing']),
            'logdir': r.choice(['abs', 'abs', 'default', 'relative'])}


def shrinks(case):
    from dst.core import generic_shrinks
    if 'hashseed' in case:
        return
    yield from generic_shrinks(case, {'jumps', 'prior', 'stalls'})
    for k, v in (('verbose', 'suppress'), ('report', None), ('logdir', 'abs')):
        if case.get(k, v) != v:
            yield dict(case, **{k: v})
    yield from p01.shrinks(dict(case, kills=[]))


def history(case, root, ctx):
    r = core.rng_for('history', case['prior_seed'])
    for what in case['prior']:
        ctx.probe('prior_' + what)
        if what == 'draw':
            random.random()
            np.random.rand(r.randrange(1, 9))
            torch.rand(r.randrange(1, 9))
        elif what == 'seed':
            T.seed_globals(r.randrange(1000))
        elif what == 'backend':
            with nb.backend(r.choice(['jax', 'pytorch', 'numpy'])):
                T.SENTS[0].normal_form()
        elif what == 'models':
            m = T.fresh_model(dict(case['cfg'], noise=0))
            m.initialise_weights()
        elif what == 'tqdm':
            from tqdm.auto import tqdm
            for _ in tqdm(range(3)):
                pass
        else:
            cfg = T.gen_config(core.rng_for('prior', case['prior_seed']),
                               models=['stubq', 'stubt'])
            cfg['epochs'] = 1
            keep = T.ROUND[0]
            sim = T.Sim(None)
            if what == 'failed':
                def stop(k, kind):
                    if kind == 'loss':
                        raise RuntimeError('earlier failure')
                sim.action = stop
            try:
                p01.one_process(cfg, root, sim, False, None, 7)
            except RuntimeError:
                pass
            T.ROUND[0] = keep


def prepare():
    T.use_scalar_writer()


def one(case, root, sim, verbose, logdir, report=None):
    """Like p01.one_process with a choice of log directory."""
    cfg = case['cfg']
    with SimClock(sim.ctx) as clock, SimDisk(root, ctx=sim.ctx) as disk:
        sim.clock, sim.disk = clock, disk
        disk.hook = sim.disk_hook
        T.CURRENT[0] = sim
        cwd = os.getcwd()
        os.chdir(root)
        try:
            model = T.fresh_model(cfg)
            train, val = T.datasets(cfg)
            trainer = T.fresh_trainer(cfg, model, logdir, False, verbose,
                                      use_tensorboard=report == 'tensorboard')
            sim.t_fit = clock.mono
            kw = {'full_timing_report': True} if report == 'timing' else {}
            T.fit(cfg, trainer, train, val, **kw)
            sim.t_end = clock.mono
            return trainer
        finally:
            os.chdir(cwd)
            T.CURRENT[0] = None


def reported(tr, rows):
    """The reported numbers are the recorded ones."""
    want = {'train/epoch_loss': tr.train_epoch_costs,
            'train/step_loss': tr.train_costs, 'val/loss': tr.val_costs,
            'train/time_per_epoch': tr.train_epoch_durations,
            'train/time': tr.train_durations}
    for name, v in tr.val_eval_results.items():
        want['val/' + name] = v
    for name, v in tr.train_eval_results.items():
        want['train/' + name] = v
    for tag, vals in want.items():
        got = [v for t, v, _ in rows if t == tag]
        if not close(got, [float(v) for v in vals]):
            raise Violation('wrong-report', f'{tag}: reported {got}, '
                            f'recorded {vals}')


class Timeline:
    def __init__(self, sim):
        self.sim = sim
        self.rows = []

    def __call__(self, k, kind):
        self.rows.append((kind, self.sim.clock.mono))

    def steps(self, first):
        """True durations of the work done for each batch."""
        out = []
        for j, (kind, t) in enumerate(self.rows):
            if kind == first:
                end = t
                for k2, t2 in self.rows[j + 1:]:
                    if k2 == 'report':
                        continue
                    if k2 not in ('model', 'loss', 'metric'):
                        break
                    end = t2
                out.append(end - t)
        return out


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-4 for x, y in zip(a, b))


def run(case, ctx):
    cfg = case['cfg']
    if 'hashseed' in case:
        a, b = [child.collect(p) for p in [
            child.spawn('dst.props.p05:child_runs', [cfg], s)
            for s in (0, case['hashseed'])]]
        d = T.diff(b[0], a[0], max(p01.tol_of(cfg), 1e-6))
        if d:
            raise Violation('run-depends-on-hash-seed',
                            f'hash seed {case["hashseed"]} against 0: {d}')
        return
    tol = p01.tol_of(cfg)
    with T.Scratch() as ra, T.Scratch() as rb, T.Scratch() as rc:
        sa = T.Sim(None)
        T.seed_globals(3)
        try:
            a = one(case, ra, sa, 'suppress', os.path.join(ra, 'run'))
        except Exception as e:
            raise HarnessError(f'reference run failed: {e!r}') from e
        history(case, rc, ctx)
        sb = T.Sim(ctx)
        tl = Timeline(sb)
        jumps = {}
        for at, dt in case['jumps']:
            jumps.setdefault(int(at * sa.n), []).append(dt)
        stalls = {}
        for at, dt in case['stalls']:
            stalls.setdefault(int(at * sa.n), []).append(dt)

        def action(k, kind):
            for dt in stalls.get(k, ()):
                sb.clock.tick(dt)
                ctx.fault('stall')
            tl(k, kind)
            for dt in jumps.get(k, ()):
                sb.clock.jump(dt)
        sb.action = action
        logdir = {'abs': os.path.join(rb, 'other', 'dir'), 'default': None,
                  'relative': 'logs'}[case['logdir']]
        with Guard('run-fails', f'second run ({case["verbose"]}, '
                                f'{case["prior"]})'):
            b = one(case, rb, sb, case['verbose'], logdir, case['report'])
        ctx.state(cfg['model'], cfg['opt'], sorted(case['prior']),
                  [tl.rows[k][0] for k in sorted(jumps) if k < len(tl.rows)])
        ctx.event(cfg, case['jumps'], case['prior'], case['verbose'])
        if case['jumps'] or case['prior']:
            ctx.nontrivial = True
        d = T.diff(T.outcome(b), T.outcome(a), tol)
        if d:
            raise Violation('run-depends-on-surroundings',
                            f'{cfg["model"]}/{cfg["opt"]}: {d} (history '
                            f'{case["prior"]}, {case["verbose"]}, '
                            f'{case["report"]})')
        if case['report']:
            ctx.probe('report_' + case['report'])
        if case['report'] == 'tensorboard':
            reported(b, T.ScalarWriter.rows)
        # durations
        for name, got, want in (
                ('train_durations', b.train_durations, tl.steps('batch')),
                ('val_durations', b.val_durations, tl.steps('vbatch'))):
            if any(x < 0 for x in got):
                raise Violation('negative-duration', f'{name}: {got}')
            if not close(got, want):
                raise Violation('wrong-duration',
                                f'{name} are {got}, elapsed were {want}')
        starts = [t for k, t in tl.rows if k == 'epoch'] + [sb.t_end]
        marks = [j for j, (k, _) in enumerate(tl.rows) if k == 'epoch']
        for e, dur in enumerate(b.train_epoch_durations):
            work = 0
            for j in range(marks[e] + 1, len(tl.rows)):
                if tl.rows[j][0] == 'epoch':
                    break
                if not tl.rows[j][0].startswith(('disk:', 'report')):
                    work = tl.rows[j][1] - starts[e]
            if dur < 0:
                raise Violation('negative-duration', f'epoch {e}: {dur}')
            stall = sum(dt for _, dt in case['stalls'])
            if not work - 1e-4 <= dur <= starts[e + 1] - starts[e] \
                    + 0.0011 + stall:
                raise Violation('wrong-duration',
                                f'epoch {e} lasted {dur}, elapsed between '
                                f'{work} and {starts[e + 1] - starts[e]}')
        if len(b.train_epoch_durations) != len(b.train_epoch_costs):
            raise Violation('wrong-duration', 'epoch durations missing')


# ----------------------------------------------------------- hash seeds
def flat(o):
    """Outcome as JSON numbers."""
    def f(x):
        x = T.plain(x)
        if isinstance(x, np.ndarray):
            return [float(v) for v in x.astype(float).ravel()]
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        if isinstance(x, (np.floating, np.integer)):
            return float(x)
        if isinstance(x, (int, float, str, bool, type(None))):
            return x
        return str(type(x))
    return f(o)


def child_runs(arg):
    out = []
    for cfg in arg:
        with T.Scratch() as root:
            try:
                tr = p01.one_process(cfg, root, T.Sim(None), False, None, 0)
                o = flat(T.outcome(tr))
                o['symbols'] = [str(s) for s in tr.model.symbols]
                o['predictions'] = flat(
                    tr.model(T.datasets(cfg)[0].data))
            except Exception as e:
                o = {'error': f'{type(e).__name__}: {e}'}
        out.append(o)
    return out


def extra_checks(tier, seed):
    n = 24 if tier == 'quick' else 200
    cfgs = []
    for i in range(n):
        r = core.rng_for('hash', seed, i)
        cfg = T.gen_config(r, models=['stubq', 'stubt', 'numpy', 'torch',
                                      'torchq', 'penny'])
        cfg['epochs'] = min(cfg['epochs'], 2)
        cfg['n_train'] = max(2, min(cfg['n_train'], 3))
        cfgs.append(cfg)
    seeds = [0, 1, 2] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 6]
    procs = [child.spawn('dst.props.p05:child_runs', cfgs, s) for s in seeds]
    res = [child.collect(p) for p in procs]
    viol = []
    compared = 0
    for s, other in zip(seeds[1:], res[1:]):
        for i, (cfg, a, b) in enumerate(zip(cfgs, res[0], other)):
            if 'error' in a and 'error' in b:
                continue
            compared += 1
            d = T.diff(b, a, max(p01.tol_of(cfg), 1e-6))
            if d:
                viol.append((10 ** 6 + i, {'cfg': cfg, 'hashseed': s,
                                           '_id': [seed, 'hash', i]},
                             {'rule': 'run-depends-on-hash-seed',
                              'message': f'{cfg["model"]}: hash seed {s} '
                                         f'against 0: {d}', 'detail': {}}))
    return {'hash_seed_comparisons': compared,
            'hash_seeds': seeds}, viol
