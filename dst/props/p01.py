"""P01: resume equivalence."""
import os

from dst import train as T
from dst.core import Guard, HarnessError, SimKill, Violation
from dst.seams import SimClock, SimDisk

ID = 'P01'
RUNS = {'quick': 4000, 'thorough': 150000}
IMPORTS = ['torch.utils.serialization.config']
RULE = ('A case is a training configuration (trainer, model, optimiser, data, '
        'evaluation settings) and a list of kills, each at a fraction of the '
        'event sequence (model, loss, metric, batch, disk step) of a process; '
        'non-trivial when at least one kill fired and a later process resumed '
        'from a checkpoint.')
STATE_MEASURE = ('(model, optimiser, eval mode, kind of event killed at, '
                 'epoch resumed from)')
REAL = ['QuantumTrainer', 'PytorchTrainer', 'Checkpoint', 'Dataset',
        'SPSA/Rotosolve/Nelder-Mead optimisers', 'torch optimisers',
        'NumpyModel, PytorchModel, '
        'PytorchQuantumModel, PennyLaneModel (part of the runs)']
STUB = ['forward pass of the user-defined models (analytic)', 'disk',
        'clock', 'process boundary (fresh objects, unrelated RNG states)']
ASSUMPTIONS = [
    'A killed process loses all memory and keeps what it wrote (process kill).',
    'Models that draw randomness draw it from the generator their trainer '
    'seeds (numpy for QuantumTrainer, torch for PytorchTrainer).',
    'Runs with contracted tensor networks are compared with tolerance 1e-5 '
    '(contraction order is not fixed); analytic models bitwise.']
SHRINK_LISTS = {'kills'}
MODELS = (['stubq'] * 80 + ['stubt'] * 50 + ['numpy', 'torch', 'torchq'] * 9
          + ['penny'] * 5)


def gen(r, i, tier):
    cfg = T.gen_config(r, models=MODELS)
    if not cfg['model'].startswith('stub'):
        cfg['epochs'] = min(cfg['epochs'], 3)
        cfg['n_train'] = min(cfg['n_train'], 3)
    n = r.choice([1, 1, 1, 2, 3])
    return {'cfg': cfg, 'again': r.random() < 0.25,
            'kills': [{'at': r.random(), 'frac': r.choice([0, .3, .7, 1])}
                      for _ in range(n)]}


def shrinks(case):
    from dst.core import generic_shrinks
    yield from generic_shrinks(case, SHRINK_LISTS)
    cfg = case['cfg']
    if case.get('again'):
        yield dict(case, again=False)
    for k, v in (('epochs', 2), ('n_train', 2), ('n_train', 1), ('n_val', 0),
                 ('n_val', 1), ('batch', 0), ('batch', 1), ('vbatch', 0),
                 ('shuffle', False), ('vshuffle', False), ('metrics', []),
                 ('noise', 0), ('es_interval', None), ('es_criterion', None),
                 ('eval_mode', 'epoch'), ('eval_interval', 1),
                 ('log_interval', 1)):
        if cfg.get(k) != v:
            c = dict(cfg, **{k: v})
            if c['n_val'] == 0:
                c['es_interval'] = c['es_criterion'] = None
            if c['es_criterion'] not in (None, *c['metrics']):
                c['es_criterion'] = None
            yield dict(case, cfg=c)


def one_process(cfg, root, sim, resume, ctx, pid, verbose='suppress',
                after_build=None):
    """Runs one process to completion or death; returns the trainer."""
    T.seed_globals(cfg['seed'] * 31 + pid * 977 + 5)
    log_dir = os.path.join(root, 'run')
    with SimClock(ctx) as clock, SimDisk(root, ctx=ctx) as disk:
        sim.clock, sim.disk = clock, disk
        disk.hook = sim.disk_hook
        T.CURRENT[0] = sim
        try:
            model = T.fresh_model(cfg)
            train, val = T.datasets(cfg)
            trainer = T.fresh_trainer(cfg, model, log_dir, resume, verbose)
            if after_build:
                after_build(trainer)
            T.fit(cfg, trainer, train, val)
            if disk.frozen:
                raise SimKill('killed earlier')
            return trainer
        finally:
            T.CURRENT[0] = None


def reference(cfg, root, sim):
    try:
        return one_process(cfg, root, sim, False, None, 0)
    except Exception as e:           # the property says nothing about it
        raise HarnessError(f'uninterrupted run failed: {e!r}') from e


def tol_of(cfg):
    return {'stubq': 0.0, 'stubt': 1e-6}.get(cfg['model'], 1e-5)


def killer(sim, index, frac, fired):
    def action(k, kind):
        if k == index:
            fired.append(kind)
            d = sim.disk
            if kind.startswith('disk:'):
                d.plan[d.n] = (('torn', frac) if kind == 'disk:write'
                               else ('crash_after' if frac >= 1 else 'crash',
                                     0))
            else:
                sim.ctx.fault('kill_at_' + kind)
                d.kill()
                raise SimKill('killed at ' + kind)
    return action


def run(case, ctx):
    cfg = case['cfg']
    tol = tol_of(cfg)
    with T.Scratch() as ref_root, T.Scratch() as root:
        ref_sim = T.Sim(None)
        ref = reference(cfg, ref_root, ref_sim)
        want = T.outcome(ref)
        total = ref_sim.n
        ref_ck = T.entries(os.path.join(ref_root, 'run', 'model.lt'))
        final_epoch = ref_ck.get('epoch')

        got = None
        ck_path = os.path.join(root, 'run', 'model.lt')
        kills = list(case['kills'])
        pid = 0
        resumed = again = False
        last_kind = 'complete'
        while True:
            pid += 1
            sim = T.Sim(ctx)
            fired = []
            if kills:
                k = kills.pop(0)
                sim.action = killer(sim, int(k['at'] * total), k['frac'],
                                    fired)
            resume = os.path.exists(ck_path)
            if resume:
                with Guard('unreadable-checkpoint',
                           'reading the checkpoint of a killed run'):
                    e = T.entries(ck_path)
                done = e.get('epoch') == final_epoch
                ctx.probe('resumed')
                ctx.state(cfg['model'], cfg['opt'], cfg['eval_mode'],
                          last_kind, e.get('epoch'))
                resumed = True
                if done:
                    ctx.probe('resumed_when_complete')
            try:
                with Guard('resumed-run-fails' if resume else 'run-fails',
                           f'process {pid} (resume={resume})'):
                    trainer = one_process(cfg, root, sim, resume, ctx, pid)
                ctx.event('process', pid, 'finished', resume)
                got = trainer
                if not case.get('again') or again:
                    break
                # a complete run is resumed once more
                again = True
                kills = []
            except SimKill:
                last_kind = fired[-1] if fired else '?'
                ctx.event('process', pid, 'killed at', last_kind, sim.n)
                if pid > 1:
                    ctx.probe('killed_again_after_resume')
        if resumed:
            ctx.nontrivial = True
        if got is None:
            raise HarnessError('no process finished')
        else:
            d = T.diff(T.outcome(got), want, tol)
            ctx.event('weights', [str(w.ravel()[:3]) for w in want['weights']])
            if d:
                raise Violation('resumed-run-differs',
                                f'{cfg["model"]}/{cfg["opt"]}: {d}')
        for name in ('model.lt', 'best_model.lt'):
            a = os.path.join(root, 'run', name)
            b = os.path.join(ref_root, 'run', name)
            if os.path.exists(a) != os.path.exists(b):
                raise Violation('checkpoint-file-set-differs',
                                f'{name} exists: {os.path.exists(a)} after '
                                f'resume, {os.path.exists(b)} without')
            if os.path.exists(a):
                with Guard('final-checkpoint-unreadable', 'reading ' + name):
                    ea = T.entries(a)
                d = T.diff(ea, T.entries(b), tol, skip=('duration',))
                if d:
                    raise Violation('final-checkpoint-differs', f'{name}{d}')
