"""P02: checkpoint durability under crashes and disk errors."""
import os
import pickle
from pathlib import Path

import numpy as np

from dst import train as T
from dst.core import Guard, HarnessError, SimKill, Violation
from dst.props.p01 import tol_of
from dst.seams import SimClock, SimDisk, real

ID = 'P02'
RUNS = {'quick': 4000, 'thorough': 150000}
IMPORTS = ['pennylane', 'torch.utils.serialization.config']
RULE = ('A case is a history of saves, loads and restarts on one checkpoint '
        'path with disk faults and crashes (process kill or power loss) at '
        'chosen disk steps, or a training run with one such fault; '
        'non-trivial when at least one fault took effect on a save.')
STATE_MEASURE = ('(what is saved, fault kind, disk operation it hit, old file '
                 'present, what survived)')
REAL = ['Checkpoint.to_file/from_file', 'Model.save/load of every model class',
        'Trainer.save_checkpoint inside fit']
STUB = ['disk (page cache and durable state modelled over real files)',
        'process boundary', 'clock']
ASSUMPTIONS = [
    'Process kill keeps everything written; power loss keeps a prefix of the '
    'pending metadata operations and a prefix of the bytes of unsynced files; '
    'fsync makes a file and the metadata operations before it durable.',
    'Injected errors: ENOSPC (once, sticky), EDQUOT, EIO, EACCES, EMFILE, '
    'short writes; read EIO and short reads.',
    'After a power loss the previous checkpoint is accepted even if the save '
    'had returned (no directory sync is required).']
SHRINK_LISTS = {'ops', 'faults'}

WFAULTS = ['crash', 'crash', 'crash_after', 'torn', 'torn', 'enospc',
           'enospc_sticky', 'edquot', 'eio', 'eio', 'eacces', 'emfile',
           'short']
MODELS = ['stubq', 'stubt', 'numpy', 'torch', 'torchq', 'penny']


def gen(r, i, tier):
    if r.random() < 0.25:
        cfg = T.gen_config(r, models=['stubq', 'stubq', 'stubt'])
        cfg['epochs'] = r.choice([2, 3, 4])
        return {'kind': 'train', 'cfg': cfg,
                'at': r.random(), 'fault': r.choice(WFAULTS),
                'arg': round(r.random(), 3),
                'loss': _loss(r)}
    what = r.choice(['entries', 'entries', 'entries', 'model', 'model'])
    ops = []
    for v in range(r.choice([2, 3, 4, 6])):
        ops.append({'op': 'save', 'v': v + 1,
                    'size': r.choice([10, 3000, 9000, 40000]),
                    'faults': [[r.randrange(0, 14), r.choice(WFAULTS),
                                round(r.random(), 3)]
                               for _ in range(r.choice([0, 0, 1, 1, 1, 2]))],
                    'loss': _loss(r), 'retry': r.random() < 0.5})
        if r.random() < 0.4:
            ops.append({'op': 'load', 'faults': [
                [r.randrange(0, 5), r.choice(['short', 'eio', 'eacces'])]
                for _ in range(r.choice([0, 1]))]})
        if r.random() < 0.3:
            ops.append({'op': 'restart', 'loss': _loss(r)})
    return {'kind': 'saves', 'what': what, 'model': r.choice(MODELS),
            'pathlib': r.random() < 0.3, 'ops': ops}


def _loss(r):
    if r.random() < 0.6:
        return None
    return {'meta': r.choice([0.0, 0.3, 0.5, 0.8, 1.0]),
            'data': r.choice([0.0, 0.4, 0.9, 1.0])}


def content(v, size):
    r = np.random.RandomState(v)
    return {'version': v, 'blob': bytes(r.randint(0, 256, size, dtype='u1')),
            'list': list(range(v, v + size // 50)), 'text': f'state {v}'}


class Saver:
    """Saves and loads versions, either raw entries or whole models."""

    def __init__(self, what, model):
        self.what = what
        if what == 'model':
            cls, pool = T.MODELS[model]
            self.cls, self.pool = cls, pool[:2]
            self.name = model

    def new(self):
        if self.what == 'model':
            m = self.cls.from_diagrams(self.pool)
            T.seed_globals(0)
            m.initialise_weights()
            return m

    def set(self, m, v):
        r = np.random.RandomState(v)
        w = m.weights
        if isinstance(w, T.torch.nn.ParameterList):
            with T.torch.no_grad():
                for p in m.parameters():
                    p.copy_(T.torch.tensor(r.rand(*p.shape)))
        elif T.torch.is_tensor(w):
            m.weights = T.torch.nn.Parameter(
                T.torch.tensor(r.rand(*w.shape), dtype=w.dtype))
        else:
            m.weights = r.rand(*np.asarray(w).shape)

    def save(self, v, size, path):
        if self.what == 'entries':
            ck = T.Checkpoint()
            ck.add_many(content(v, size))
            self.ck = ck
            return ck.to_file(path)
        self.m = self.new()
        self.set(self.m, v)
        self.m.save(path)

    def again(self, path):
        """Save the very same object again after a failed attempt."""
        if self.what == 'entries':
            self.ck.to_file(path)
        else:
            self.m.save(path)

    def load(self, path):
        if self.what == 'entries':
            return T.Checkpoint.from_file(path)
        m = self.new()
        m.load(path)
        return m

    def version(self, obj, sizes):
        """Which version the loaded object is, or None when it is none."""
        for v, size in sizes.items():
            if self.what == 'entries':
                if dict(obj.entries) == content(v, size):
                    return v
            else:
                m = self.new()
                self.set(m, v)
                if T.diff(T.weights_of(obj), T.weights_of(m)) is None \
                        and list(obj.symbols) == list(m.symbols):
                    return v
        return None


def check_path(s, path, allowed, sizes, rule, when):
    """The path must hold one of the allowed versions (0: no file)."""
    if not os.path.lexists(path):
        if 0 not in allowed:
            raise Violation(rule, f'{when}: the checkpoint is gone')
        return 0
    with Guard(rule, f'{when}: loading the checkpoint'):
        obj = s.load(path)
    v = s.version(obj, sizes)
    if v not in allowed:
        raise Violation(rule, f'{when}: the checkpoint holds version {v}, '
                              f'expected one of {sorted(allowed)}')
    return v


def run_saves(case, ctx):
    s = Saver(case['what'], case['model'])
    sizes = {}
    with T.Scratch() as root, SimClock(ctx):
        path = os.path.join(root, 'model.lt')
        if case['pathlib']:
            path = Path(path)
        current = {0}                # versions the path may hold
        durable = {0}                # ... after a power loss
        disk = SimDisk(root, ctx=ctx)
        with disk:
            pass

        def restart(loss):
            nonlocal disk
            before = None
            disk.after_crash(loss)
            if loss is not None:
                ctx.fault('power_loss')
            disk = SimDisk(root, ctx=ctx)

        for n, op in enumerate(case['ops']):
            when = f'op {n} ({op["op"]})'
            if op['op'] == 'save':
                v = op['v']
                sizes[v] = op['size']
                prev = set(current)
                disk.plan = {disk.n + k: [kind, a]
                             for k, kind, a in op['faults']}
                fired0 = len(disk.fired)
                start = disk.n
                outcome = 'ok'
                try:
                    with disk:
                        s.save(v, op['size'], path)
                    if disk.frozen:
                        raise SimKill('swallowed')
                except SimKill:
                    outcome = 'killed'
                except Exception as e:
                    outcome = 'error'
                    if len(disk.fired) == fired0 and not disk.sticky:
                        raise Violation('healthy-save-fails',
                                        f'{when}: {type(e).__name__}: {e}')
                disk.heal()
                hit = [disk.trace[start + k][0] for k, _, _ in op['faults']
                       if start + k < len(disk.trace)]
                fired = disk.fired[fired0:]
                if fired:
                    ctx.nontrivial = True
                if outcome == 'killed':
                    restart(op['loss'])
                    allowed = prev | {v}
                    if op['loss'] is not None:
                        allowed |= durable
                elif outcome == 'error':
                    allowed = prev | {v}
                    ctx.probe('save_reported_error')
                else:
                    allowed = {v}
                got = check_path(s, path, allowed, sizes,
                                 'lost-checkpoint' if outcome != 'ok'
                                 else 'save-returned-but-not-saved',
                                 f'{when} {outcome} after {fired} at {hit}')
                ctx.event(n, 'save', v, outcome, fired, hit, 'holds', got)
                ctx.state(case['what'], case['model'], fired, hit,
                          bool(prev - {0}), outcome, got == v, op['loss'])
                if outcome == 'error' and op['retry']:
                    with disk, Guard('save-after-error-fails',
                                     f'{when}: saving the same object again'):
                        s.again(path)
                    got = check_path(s, path, {v}, sizes,
                                     'save-after-error-fails', when)
                    ctx.probe('retried')
                current = {got}
                # what a later power loss may bring back
                if outcome == 'killed':
                    durable = {got}
                elif outcome == 'ok':
                    durable = prev | {got}
                else:
                    durable |= prev | {got}
            elif op['op'] == 'load':
                disk.rplan = {disk.rn + k: kind for k, kind in op['faults']}
                fired0 = len(disk.fired)
                try:
                    with disk:
                        obj = s.load(path)
                    got = s.version(obj, sizes)
                except Exception as e:
                    errs = [f for f in disk.fired[fired0:]
                            if f != 'short_read']
                    if 0 not in current and not errs:
                        raise Violation(
                            'healthy-load-fails',
                            f'{when}: {type(e).__name__}: {e}')
                    got = None
                disk.heal()
                if got is not None and got not in current:
                    raise Violation('load-returns-other-state',
                                    f'{when}: version {got}, expected '
                                    f'{sorted(current)}')
                check_path(s, path, current, sizes, 'load-damages-file', when)
            else:
                allowed = set(current)
                if op['loss'] is not None:
                    allowed |= durable
                restart(op['loss'])
                got = check_path(s, path, allowed, sizes, 'lost-checkpoint',
                                 f'{when} {op["loss"]}')
                current = {got}
                durable = {got}


def run_train(case, ctx):
    """One fault during fit; then the files must be complete states of the
    run, and resuming must finish it as if nothing had happened."""
    from dst.props import p01
    cfg = case['cfg']
    tol = tol_of(cfg)
    with T.Scratch() as ref_root, T.Scratch() as root:
        ref_sim = T.Sim(None)
        snaps = {'model.lt': [], 'best_model.lt': []}
        seen = {}

        def snap(k=None, kind=None):
            for name in snaps:
                p = os.path.join(ref_root, 'run', name)
                try:
                    st = os.stat(p)
                except OSError:
                    continue
                key = (st.st_ino, st.st_mtime_ns, st.st_size)
                if seen.get(name) == key:
                    continue
                try:
                    with real.open(p, 'rb') as f:
                        e = pickle.load(f)
                except Exception:
                    continue         # half-way through a write
                seen[name] = key
                snaps[name].append(e)
        ref_sim.action = snap
        ref = p01.reference(cfg, ref_root, ref_sim)
        snap()
        want = T.outcome(ref)
        disk_steps = [k for k in ref_sim.kinds if k.startswith('disk:')]
        # choose one of the mutating steps of the run
        steps = [j for j, k in enumerate(ref_sim.kinds)
                 if k in ('disk:create', 'disk:trunc', 'disk:write',
                          'disk:fsync', 'disk:rename', 'disk:unlink',
                          'disk:openw')]
        if not steps:
            raise HarnessError('no disk steps')
        index = steps[int(case['at'] * len(steps))]
        sim = T.Sim(ctx)

        def action(k, kind):
            if k == index:
                sim.disk.plan[sim.disk.n] = [case['fault'], case['arg']]
        sim.action = action
        outcome = 'ok'
        box = []
        try:
            trainer = p01.one_process(cfg, root, sim, False, ctx, 0)
        except SimKill:
            outcome = 'killed'
        except Exception as e:
            outcome = 'error'
            if not sim.disk.fired:
                raise Violation('run-fails', f'{type(e).__name__}: {e}')
        disk = sim.disk
        fired = list(disk.fired)
        ctx.event('fit', outcome, fired, ref_sim.kinds[index])
        if fired:
            ctx.nontrivial = True
        if outcome == 'ok':
            if fired and set(fired) - {'short_write'}:
                bad = [f for f in fired if f != 'short_write']
                ctx.probe('fault_survived_' + bad[0])
            d = T.diff(T.outcome(trainer), want, tol)
            if d:
                raise Violation('fault-changes-run', d)
        if outcome == 'killed' and case['loss'] is not None:
            disk.after_crash(case['loss'])
            ctx.fault('power_loss')
        found = {}
        for name, versions in snaps.items():
            p = os.path.join(root, 'run', name)
            if not os.path.lexists(p):
                if outcome == 'ok' and versions:
                    raise Violation('save-returned-but-not-saved',
                                    f'{name} is missing')
                found[name] = -1
                continue
            with Guard('lost-checkpoint',
                       f'{name} after {fired} ({outcome}): loading'):
                e = T.entries(p)
            idx = next((j for j, v in enumerate(versions)
                        if T.diff(e, v, tol, skip=('duration',)) is None),
                       None)
            if idx is None:
                raise Violation('lost-checkpoint',
                                f'{name} after {fired} ({outcome}) is no '
                                'state of the run')
            if outcome == 'ok' and idx != len(versions) - 1:
                raise Violation('save-returned-but-not-saved',
                                f'{name} holds state {idx} of '
                                f'{len(versions)}')
            found[name] = idx
        ctx.state('train', fired, ref_sim.kinds[index], outcome,
                  sorted(found.items()))
        # how far the run had come, judged by its own user-visible events
        if outcome != 'ok' and case['loss'] is None:
            _not_older(ref_sim, sim, found, case)
        if outcome != 'ok':
            resume = os.path.exists(os.path.join(root, 'run', 'model.lt'))
            if resume and cfg['es_interval'] is not None and \
                    found['model.lt'] == len(snaps['model.lt']) - 1:
                return
            with Guard('resume-after-fault-fails', f'resume={resume}'):
                t2 = p01.one_process(cfg, root, T.Sim(ctx), resume, ctx, 1)
            d = T.diff(T.outcome(t2), want, tol)
            if d:
                raise Violation('resumed-run-differs', d)
            ctx.probe('resumed_after_fault')


def _not_older(ref_sim, sim, found, case):
    """The surviving model.lt may lag at most one epoch behind the events
    that happened after it was saved in the reference run."""
    renames = 0
    # count completed epochs by train passes: a 'batch' event that starts a
    # new pass happens only after the checkpoint of the previous epoch
    n = min(sim.n, len(ref_sim.kinds))
    epochs_started = sum(1 for k in sim.kinds[:n] if k == 'epoch')
    if epochs_started >= 2 and found['model.lt'] < epochs_started - 2:
        raise Violation('lost-checkpoint',
                        f'model.lt holds epoch {found["model.lt"] + 1} but '
                        f'{epochs_started - 1} epochs had been saved')


def run(case, ctx):
    if case['kind'] == 'saves':
        run_saves(case, ctx)
    else:
        run_train(case, ctx)


def shrinks(case):
    from dst.core import generic_shrinks
    if case['kind'] == 'train':
        from dst.props import p01
        for c in p01.shrinks(dict(case, kills=[])):
            c.pop('kills', None)
            yield c
        for c in ({'loss': None}, {'arg': 0}):
            if any(case[k] != v for k, v in c.items()):
                yield dict(case, **c)
        return
    yield from generic_shrinks(case, SHRINK_LISTS)
    for j, op in enumerate(case['ops']):
        for k, v in (('loss', None), ('size', 10), ('retry', False)):
            if k in op and op[k] != v:
                ops = list(case['ops'])
                ops[j] = dict(op, **{k: v})
                yield dict(case, ops=ops)
    if case['what'] != 'entries':
        yield dict(case, what='entries')
