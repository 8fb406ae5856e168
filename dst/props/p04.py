"""P04: a failed or interrupted training run leaves the model usable."""
import os

import numpy as np

from dst import train as T
from dst.core import Guard, HarnessError, SimKill, Violation
from dst.props import p01
from dst.seams import SimClock, SimDisk

from lambeq.backend import numerical_backend as nb

ID = 'P04'
RUNS = {'quick': 4000, 'thorough': 150000}
IMPORTS = ['jax.numpy']
RULE = ('A case is a training configuration (or a bare optimiser loop) and a '
        'failure: an exception of a chosen kind raised by the model, the '
        'loss, a metric, a data batch or the disk at a fraction of the event '
        'sequence; non-trivial when the failure fired.')
STATE_MEASURE = ('(model, optimiser, kind of event failed at, exception kind, '
                 'phase of the step, step)')
REAL = ['QuantumTrainer', 'PytorchTrainer', 'all optimisers', 'Checkpoint',
        'Dataset', 'numerical_backend', 'NumpyModel/PytorchModel in part']
STUB = ['forward pass of the analytic models', 'disk', 'clock']
ASSUMPTIONS = [
    'Exceptions arrive where user code, the model or the disk runs; an '
    'interrupt between two arbitrary bytecodes of lambeq is not injected.',
    'Rotosolve completes one update per parameter; each counts.']
SHRINK_LISTS: set = set()

KINDS = {'RuntimeError': RuntimeError, 'ValueError': ValueError,
         'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
         'FloatingPointError': FloatingPointError, 'OSError': OSError,
         'StopIteration': StopIteration}
DISK_KINDS = ['enospc', 'enospc_sticky', 'eio', 'eacces', 'emfile', 'edquot']


def gen(r, i, tier):
    cfg = T.gen_config(r)
    if cfg['model'] in ('numpy', 'torch', 'torchq'):
        cfg['epochs'] = min(cfg['epochs'], 2)
        cfg['n_train'] = min(cfg['n_train'], 2)
    mode = 'fit'
    if cfg['model'] == 'stubq' and r.random() < 0.2:
        mode = 'optimizer'
    return {'mode': mode, 'cfg': cfg, 'at': r.random(),
            'exc': r.choice(sorted(KINDS)),
            'disk': r.choice(DISK_KINDS), 'arg': round(r.random(), 2),
            'outer': r.choice([None, None, 'jax', 'numpy', 'pytorch']),
            'resume_from': r.random() < 0.25}


def shrinks(case):
    for c in p01.shrinks(dict(case, kills=[])):
        c.pop('kills', None)
        yield c
    for k, v in (('outer', None), ('resume_from', False),
                 ('exc', 'RuntimeError')):
        if case[k] != v:
            yield dict(case, **{k: v})


class Tracker:
    """Weights at every event of a run and the phase it is in."""

    def __init__(self):
        self.trainer = None
        self.rows = []               # (kind, phase, step, weights)
        self.phase = 'before'
        self.step = 0

    def note(self, kind):
        if kind == 'epoch':
            self.phase = 'between'
        elif kind == 'batch':
            self.step += 1
            self.phase = 'update'
        elif kind == 'metric' or kind == 'validation' \
                or kind.startswith('disk:'):
            if self.phase == 'update':
                self.phase = 'after'
        return self.phase

    def __call__(self, k, kind):
        # the 'batch' event precedes the update of its step
        w = None
        if self.trainer is not None:
            w = T.weights_of(self.trainer.model)
        prev = self.phase
        ph = self.note(kind)
        if kind == 'batch':
            ph = 'between'
        self.rows.append((kind, ph, self.step, w))


def backend_name():
    return nb.get_backend().name if hasattr(nb.get_backend(), 'name') else \
        type(nb.get_backend()).__name__


def one_process(case, root, sim, tracker, seed, resume=False):
    cfg = case['cfg']

    def built(trainer):
        tracker.trainer = trainer
    return p01.one_process(cfg, root, sim, resume, sim.ctx, seed,
                           after_build=built)


def allowed_states(cfg, ref, index, tol):
    """What the weights may be after a failure at event index."""
    kind, phase, step, _ = ref.rows[index]
    # weights that were in force when a batch was about to be processed
    start = {s: w for (k, p, s, w) in ref.rows if k == 'batch'}
    final = T.weights_of(ref.trainer.model)

    def after(s):
        return start.get(s + 1, final)
    if phase == 'before':
        return []
    if phase == 'update':
        cur = start[step]
        out = [cur]
        if cfg['opt'] == 'roto':
            nxt = after(step)
            n = len(cur[0])
            for i in range(1, n + 1):
                out.append([np.concatenate([nxt[0][:i], cur[0][i:]])])
        return out
    if phase == 'after':
        return [after(step)]
    if kind == 'batch':              # about to start step
        return [start[step]]
    return [start.get(step + 1, final)]


def run(case, ctx):
    cfg = case['cfg']
    if case['mode'] == 'optimizer':
        return run_optimizer(case, ctx)
    tol = p01.tol_of(cfg)
    with T.Scratch() as ref_root, T.Scratch() as root:
        ref_sim = T.Sim(None)
        ref = Tracker()
        ref_sim.action = ref
        try:
            tr = one_process(case, ref_root, ref_sim, ref, 0)
        except Exception as e:
            raise HarnessError(f'reference run failed: {e!r}') from e
        want = T.outcome(tr)
        live = [j for j, row in enumerate(ref.rows) if row[1] != 'before']
        index = live[int(case['at'] * len(live))]
        kind, phase, step, _ = ref.rows[index]

        sim = T.Sim(ctx)
        got = Tracker()
        raised = []

        def action(k, kd):
            got(k, kd)
            if k != index:
                return
            if kd.startswith('disk:'):
                sim.disk.plan[sim.disk.n] = [case['disk'], case['arg']]
                sim.disk.rplan[sim.disk.rn] = 'eio'
                raised.append('disk')
            else:
                e = KINDS[case['exc']]('injected failure')
                raised.append(e)
                ctx.fault(f'{case["exc"]}_in_{kd}')
                raise e
        sim.action = action
        outer = case['outer']
        scope = nb.backend(outer) if outer else None
        if scope:
            scope.__enter__()
        backend0 = backend_name()
        err = None
        try:
            try:
                one_process(case, root, sim, got, 0)
            except SimKill:
                raise
            except BaseException as e:
                err = e
            backend1 = backend_name()
        finally:
            if scope:
                scope.__exit__(None, None, None)
        if not raised:
            raise HarnessError('the failure did not fire')
        if raised[0] == 'disk' and not sim.disk.fired:
            return                   # that fault does not apply to that step
        ctx.nontrivial = True
        ctx.state(cfg['model'], cfg['opt'], kind, case['exc'], phase, step)
        ctx.event(kind, phase, step, case['exc'], cfg,
                  case['disk'] if raised[0] == 'disk' else None)
        where = f'{cfg["model"]}/{cfg["opt"]}, failure at {kind} ({phase})'
        if err is None:
            if raised[0] != 'disk':
                raise Violation('error-swallowed', f'{where}: '
                                f'{case["exc"]} never reached the caller')
            return
        model = got.trainer.model
        if backend1 != backend0:
            raise Violation('backend-not-restored', f'{where}: {backend1} '
                                                    f'instead of {backend0}')
        if getattr(model, '_training', False):
            raise Violation('left-in-training-mode', where)
        w = T.weights_of(model)
        allowed = allowed_states(cfg, ref, index, tol)
        if not any(T.diff(w, a, tol) is None for a in allowed):
            raise Violation(
                'weights-not-of-a-completed-update',
                f'{where}, step {step}: weights {[x.ravel()[:4] for x in w]}, '
                f'completed update '
                f'{[x.ravel()[:4] for x in allowed[0]] if allowed else None}')
        # predictions outside training are not recorded any more
        before = len(getattr(model, '_train_predictions', []))
        train, val = T.datasets(cfg)
        with Guard('model-unusable', f'{where}: predicting'):
            p1 = np.asarray(T.plain(model(train.data)))
        if len(getattr(model, '_train_predictions', [])) > before:
            raise Violation('left-in-training-mode',
                            f'{where}: predictions are still being recorded')
        # train again, with the same trainer and then with a new one
        if not sim.disk.sticky:
            ctx.probe('trained_again')
            s2 = T.Sim(ctx)
            T.CURRENT[0] = s2
            try:
                with SimClock(ctx) as c, SimDisk(root, ctx=ctx) as d:
                    s2.clock, s2.disk = c, d
                    with Guard('cannot-train-again',
                               f'{where}: fit on the same trainer'):
                        T.fit(cfg, got.trainer, train, val)
            finally:
                T.CURRENT[0] = None
        with Guard('cannot-train-again', f'{where}: a new trainer'):
            resume = case['resume_from'] and os.path.exists(
                os.path.join(ref_root, 'run', 'model.lt'))
            t3 = retrain(case, ref_root, model, ctx)
        d = T.diff(T.outcome(t3), want, tol)
        if d:
            raise Violation('training-again-differs',
                            f'{where}: a new trainer on the same model: {d}')


def retrain(case, root, model, ctx):
    """A new trainer on the model that survived the failure."""
    cfg = case['cfg']
    sim = T.Sim(ctx)
    T.seed_globals(99)
    with SimClock(ctx) as clock, SimDisk(root, ctx=ctx) as disk:
        sim.clock, sim.disk = clock, disk
        T.CURRENT[0] = sim
        try:
            train, val = T.datasets(cfg)
            tr = T.fresh_trainer(cfg, model, os.path.join(root, 'again'),
                                 False)
            T.fit(cfg, tr, train, val)
            return tr
        finally:
            T.CURRENT[0] = None


def run_optimizer(case, ctx):
    """A user's own loop over backward / step / zero_grad."""
    cfg = case['cfg']

    def build():
        T.seed_globals(cfg['seed'])
        m = T.fresh_model(cfg)
        m.initialise_weights()
        tr = T.fresh_trainer(cfg, m, os.path.join(root, 'x'), False)
        T.seed_globals(cfg['seed'] + 1)
        return m, tr.optimizer

    def loop(m, opt, n, rec=None):
        tgt = np.array([[float(k % 2), float((k + 1) % 2)]
                        for k in range(cfg['n_train'])])
        for s in range(n):
            if rec is not None:
                rec.append(T.weights_of(m))
            opt.backward((T.CIRCS[:cfg['n_train']], tgt))
            T.at('between')
            opt.step()
            opt.zero_grad()
            T.at('stepped')

    with T.Scratch() as root:
        steps = cfg['epochs'] + 1
        m, opt = build()
        rec, sim = [], T.Sim(None)
        T.CURRENT[0] = sim
        try:
            loop(m, opt, steps, rec)
        except Exception as e:
            raise HarnessError(f'optimiser loop failed: {e!r}') from e
        finally:
            T.CURRENT[0] = None
        rec.append(T.weights_of(m))
        cand = [j for j, k in enumerate(sim.kinds) if k in ('model', 'loss')]
        index = cand[int(case['at'] * len(cand))]
        step = sim.kinds[:index].count('stepped')

        m, opt = build()
        s2 = T.Sim(ctx)

        def action(k, kd):
            if k == index:
                ctx.fault(f'{case["exc"]}_in_{kd}')
                raise KINDS[case['exc']]('injected failure')
        s2.action = action
        T.CURRENT[0] = s2
        err = None
        try:
            loop(m, opt, steps)
        except BaseException as e:
            err = e
        finally:
            T.CURRENT[0] = None
        ctx.nontrivial = True
        ctx.state('optimizer', cfg['opt'], sim.kinds[index], case['exc'],
                  index - len(sim.kinds[:index]))
        ctx.event(index, step, case['exc'], cfg)
        where = f'optimiser {cfg["opt"]}, failure at {sim.kinds[index]}'
        if err is None:
            raise Violation('error-swallowed', where)
        w = T.weights_of(m)
        allowed = [rec[step]]
        if cfg['opt'] == 'roto':
            allowed += [[np.concatenate([rec[step + 1][0][:i],
                                         rec[step][0][i:]])]
                        for i in range(1, len(w[0]) + 1)]
        if not any(T.diff(w, a) is None for a in allowed):
            raise Violation('weights-not-of-a-completed-update',
                            f'{where}, step {step}: {w} instead of '
                            f'{rec[step]}')
        # carrying on: the same state as if the failed step had been redone
        with Guard('cannot-train-again', f'{where}: another step'):
            loop(m, opt, steps - step)
        if cfg['opt'].startswith('nm') and not cfg['noise']:
            d = T.diff(T.weights_of(m), rec[steps])
            if d:
                raise Violation('failed-step-leaves-traces',
                                f'{where}, step {step}: repeating the step '
                                f'gives other weights: {d}')
        if not np.isfinite(T.weights_of(m)[0]).all():
            raise Violation('cannot-train-again', f'{where}: weights are '
                                                  'not finite')
