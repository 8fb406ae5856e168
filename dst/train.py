"""Training workloads: configurations, models, instrumented user code.

Every callable a user supplies (model evaluation, loss, metric, data source)
reports to the simulation through ``Sim.at(kind)``; so does every disk step.
The position in that event sequence is the simulator's notion of *when*.
"""
from __future__ import annotations

import math
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from dst import seams
from dst.core import HarnessError, SimKill, rng_for
from dst.seams import SimClock, SimDisk, real

import lambeq
from lambeq import (AtomicType, Checkpoint, Dataset, IQPAnsatz,
                    NelderMeadOptimizer, NumpyModel, PennyLaneModel,
                    PytorchModel, PytorchQuantumModel, PytorchTrainer,
                    QuantumModel, QuantumTrainer, RotosolveOptimizer,
                    SPSAOptimizer, TensorAnsatz)
from lambeq.backend.grammar import Cup, Diagram as GDiagram, Id, Word
from lambeq.backend.tensor import Dim

N, S = AtomicType.NOUN, AtomicType.SENTENCE
SUBJ = ['Alice', 'Bob', 'Carol', 'Dave']
VERB = ['runs', 'waits', 'eats', 'codes']


def sentence(i):
    a, b = SUBJ[i % 4], VERB[(i // 4) % 4]
    return Word(a, N) @ Word(b, N >> S) >> Cup(N, N.r) @ Id(S)


SENTS = [sentence(i) for i in (0, 5, 10, 15, 1, 6, 11, 12, 3)]
_iqp = IQPAnsatz({N: 1, S: 1}, n_layers=1)
CIRCS = [_iqp(d) for d in SENTS]
_ten = TensorAnsatz({N: Dim(2), S: Dim(2)})
TENS = [_ten(d) for d in SENTS]


def _scripts():
    r = rng_for('stub-model')
    return ([[r.uniform(-3, 3) for _ in range(64)] for _ in SENTS],
            [r.uniform(0, 3) for _ in SENTS])


COEF, PHASE = _scripts()
_IDX = {}
for _pool in (CIRCS, TENS):
    for _j, _d in enumerate(_pool):
        _IDX[id(_d)] = _j


def index_of(d):
    j = _IDX.get(id(d))
    if j is not None:
        return j
    for pool in (CIRCS, TENS):
        for j, e in enumerate(pool):
            if e == d:
                return j
    raise HarnessError('unknown diagram')


class Sim:
    """The event counter of one simulated process."""

    def __init__(self, ctx, clock=None):
        self.ctx = ctx
        self.clock = clock
        self.n = 0
        self.kinds = []
        self.action = None           # callable(index, kind) or None
        self.disk = None

    def at(self, kind, cost=0.01):
        if self.clock is not None:
            self.clock.tick(cost)
        self._event(kind)

    def disk_hook(self, op, path):
        if self.clock is not None:
            self.clock.tick(0.0001)
        self._event('disk:' + op)

    def _event(self, kind):
        k = self.n
        self.n += 1
        self.kinds.append(kind)
        if self.ctx is not None:
            self.ctx.steps += 1
        if self.action is not None:
            self.action(k, kind)


CURRENT = [None]                     # the Sim user code reports to


def at(kind, cost=0.01):
    s = CURRENT[0]
    if s is not None:
        s.at(kind, cost)


# -------------------------------------------------------------- stub models
class StubQuantumModel(QuantumModel):
    """A user-defined quantum model with an analytic, bitwise reproducible
    evaluation.  Everything but ``forward`` is lambeq's own code."""

    noise = 0.0

    def get_diagram_output(self, diagrams):
        at('model')
        w = [float(x) for x in np.asarray(self.weights)]
        out = []
        for d in diagrams:
            j = index_of(d)
            s = PHASE[j]
            for k, x in enumerate(w):
                s += COEF[j][k % 64] * x
            p = 0.05 + 0.9 * math.sin(s) ** 2
            out.append([p, 1 - p])
        res = np.array(out)
        if self.noise:
            res = np.clip(res + self.noise * (np.random.rand(*res.shape) - .5),
                          0.01, 0.99)
        return res

    def forward(self, x):
        return self.get_diagram_output(x)


class StubTorchModel(PytorchModel):
    """A user-defined PyTorch model with an extra trainable layer and,
    optionally, dropout; as in lambeq's documentation."""

    noise = 0.0

    def __init__(self, **kw):
        super().__init__(**kw)
        self.net = torch.nn.Linear(4, 2)

    def forward(self, x):
        at('model')
        flat = torch.cat([w.reshape(-1) for w in self.weights])
        rows = []
        for d in x:
            j = index_of(d)
            c = torch.tensor([COEF[j][k % 64] for k in range(len(flat))])
            s = (c * flat).sum() + PHASE[j]
            rows.append(torch.stack([torch.sin(s), torch.cos(s),
                                     torch.sin(2 * s), s.new_tensor(1.)]))
        h = torch.stack(rows)
        if self.noise and torch.is_grad_enabled():
            h = torch.nn.functional.dropout(h, self.noise)
        return torch.softmax(self.net(h), dim=-1)


def _watched(cls):
    class Watched(cls):
        def forward(self, x):
            at('model')
            return super().forward(x)
    Watched.__name__ = cls.__name__
    Watched.__qualname__ = cls.__qualname__
    return Watched


WNumpy = _watched(NumpyModel)
WPytorch = _watched(PytorchModel)


class JitNumpy(NumpyModel):
    def __init__(self, **kw):
        super().__init__(use_jit=True, **kw)


WJit = _watched(JitNumpy)
WPytorchQ = _watched(PytorchQuantumModel)
WPenny = _watched(PennyLaneModel)

MODELS = {'stubq': (StubQuantumModel, CIRCS), 'numpy': (WNumpy, CIRCS),
          'stubt': (StubTorchModel, TENS), 'torch': (WPytorch, TENS),
          'torchq': (WPytorchQ, CIRCS), 'penny': (WPenny, CIRCS),
          'jit': (WJit, CIRCS)}
QMODELS = ('stubq', 'numpy', 'jit')


# ---------------------------------------------------------- user functions
# Tensor contraction is not bitwise repeatable; values that lambeq compares
# with each other are rounded for such models, so that ties stay ties.
ROUND = [False]


def _rnd(v):
    return round(v, 5) if ROUND[0] else v


def q_loss(y_hat, y):
    at('loss', 0.001)
    p = np.clip(np.asarray(y_hat, dtype=float), 1e-9, 1)
    return _rnd(float(-sum(float(a) * math.log(float(b))
                           for r, t in zip(p, np.asarray(y))
                           for a, b in zip(t, r)) / len(p)))


def t_loss(y_hat, y):
    at('loss', 0.001)
    y_hat = y_hat.reshape(len(y), -1)
    v = torch.nn.functional.mse_loss(y_hat.float(), y.float())
    if ROUND[0]:
        v = v + (torch.round(v.detach(), decimals=5) - v.detach())
    return v


def _rows(y_hat, y):
    a = y_hat.detach().numpy() if torch.is_tensor(y_hat) else np.asarray(y_hat)
    b = y.detach().numpy() if torch.is_tensor(y) else np.asarray(y)
    return a.reshape(len(b), -1), b.reshape(len(b), -1)


def acc(y_hat, y):
    at('metric', 0.001)
    a, b = _rows(y_hat, y)
    if ROUND[0]:
        a = a.round(5)
    return float((a.argmax(1) == b.argmax(1)).sum()) / len(b)


def mae(y_hat, y):
    at('metric', 0.001)
    a, b = _rows(y_hat, y)
    return _rnd(float(np.abs(a - b).mean()))


class ScalarWriter:
    """Stands in for TensorBoard's SummaryWriter."""

    rows: list = []

    def __init__(self, log_dir=None, *a, **kw):
        self.log_dir = log_dir
        ScalarWriter.rows = []

    def add_scalar(self, tag, value, step=None, *a, **kw):
        at('report', 0.0)
        ScalarWriter.rows.append((tag, float(value), step))

    def flush(self):
        pass

    def close(self):
        pass


def use_scalar_writer():
    from torch.utils.tensorboard import writer
    writer.SummaryWriter = ScalarWriter


class WatchedDataset(Dataset):
    """A Dataset whose batches report to the simulation."""

    role = 't'

    def __iter__(self):
        at('epoch' if self.role == 't' else 'validation', 0.001)
        for b in super().__iter__():
            at('batch' if self.role == 't' else 'vbatch', 0.001)
            yield b


METRICS = {'acc': acc, 'mae': mae}


# ------------------------------------------------------------ configuration
def edge_seed(n):
    """Seeds at the ends of the allowed range deserve to be common."""
    return {0: 0, 1: 0, 2: 1, 3: (1 << 32) - 1}.get(n % 16, n)


def gen_config(r, models=None, allow_es=True):
    model = r.choice(models or (['stubq'] * 8 + ['stubt'] * 5
                                + ['numpy', 'torch', 'torchq']))
    n_train = r.choice([1, 2, 3, 4, 5])
    n_val = r.choice([0, 0, 1, 2, 3])
    cfg = {
        'model': model, 'seed': edge_seed(r.randrange(1 << 30)),
        'epochs': r.choice([1, 2, 3, 3, 4, 5]),
        'n_train': n_train, 'n_val': n_val,
        'batch': r.choice([0, 1, 1, 2, 3]), 'vbatch': r.choice([0, 1, 2]),
        'shuffle': r.random() < 0.7,
        'vshuffle': r.random() < 0.5,
        'metrics': r.choice([[], ['acc'], ['mae'], ['acc', 'mae']]),
        'on_train': r.random() < 0.8,
        'eval_mode': r.choice(['epoch', 'step']),
        'eval_interval': r.choice([1, 1, 2, 3]),
        'log_interval': r.choice([1, 2]),
        'noise': r.choice([0, 0, 0.2]) if model.startswith('stub') else 0,
        'es_interval': None, 'es_criterion': None, 'minimize': True,
    }
    if allow_es and n_val and r.random() < 0.4:
        cfg['es_interval'] = r.choice([1, 1, 2, 3])
        if cfg['metrics'] and r.random() < 0.5:
            cfg['es_criterion'] = r.choice(cfg['metrics'])
            cfg['minimize'] = cfg['es_criterion'] == 'mae'
    elif allow_es and n_val and cfg['metrics'] and r.random() < 0.4:
        cfg['es_criterion'] = r.choice(cfg['metrics'])
        cfg['minimize'] = cfg['es_criterion'] == 'mae'
    if model in QMODELS:
        opt = 'spsa' if model in ('numpy', 'jit') else r.choice(
            ['spsa', 'spsa', 'spsa_bounds', 'roto', 'nm', 'nm_adaptive',
             'nm_bounds'])
        cfg['opt'] = opt
        cfg['hyper'] = {'a': r.choice([0.05, 0.2, 0.5]),
                        'c': r.choice([0.06, 0.1]),
                        'A': r.choice([0.01, 1.0, 5.0])}
        if opt.startswith('nm'):
            cfg['hyper'] = {'xatol': r.choice([1e-4, 0.5]),
                            'fatol': r.choice([1e-4, 0.5])}
    else:
        cfg['opt'] = r.choice(['sgd', 'sgd_mom', 'adam', 'adamw', 'rmsprop'])
        cfg['lr'] = r.choice([0.003, 0.03, 0.1])
    return cfg


TOPT = {'sgd': (torch.optim.SGD, {}),
        'sgd_mom': (torch.optim.SGD, {'momentum': 0.9, 'nesterov': True}),
        'adam': (torch.optim.Adam, {}),
        'adamw': (torch.optim.AdamW, {'amsgrad': True}),
        'rmsprop': (torch.optim.RMSprop, {'momentum': 0.5})}


def datasets(cfg):
    _, pool = MODELS[cfg['model']]
    nt, nv = cfg['n_train'], cfg['n_val']
    if cfg['model'] == 'torch':
        tgt = [[float(i % 2), float((i + 1) % 2)] for i in range(len(pool))]
    else:
        tgt = [[float((i * 7 // 2) % 2), float((i * 7 // 2 + 1) % 2)]
               for i in range(len(pool))]
    train = WatchedDataset(pool[:nt], tgt[:nt], batch_size=cfg['batch'],
                           shuffle=cfg['shuffle'])
    val = None
    if nv:
        val = WatchedDataset(pool[5:5 + nv], tgt[5:5 + nv],
                             batch_size=cfg['vbatch'],
                             shuffle=cfg['vshuffle'])
        val.role = 'v'
    return train, val


def fresh_model(cfg):
    ROUND[0] = not cfg['model'].startswith('stub')
    cls, pool = MODELS[cfg['model']]
    used = pool[:cfg['n_train']] + (
        pool[5:5 + cfg['n_val']] if cfg['n_val'] else [])
    m = cls.from_diagrams(used)
    if cfg.get('noise'):
        m.noise = cfg['noise']
    return m


def fresh_trainer(cfg, model, log_dir, resume, verbose='suppress',
                  functions=None, loss=None, **extra):
    ev = functions if functions is not None else (
        {k: METRICS[k] for k in cfg['metrics']} or None)
    common = dict(evaluate_functions=ev, evaluate_on_train=cfg['on_train'],
                  log_dir=log_dir, from_checkpoint=resume, verbose=verbose,
                  seed=cfg['seed'], **extra)
    if cfg['model'] in QMODELS:
        nw = len(model.symbols)
        opt, hp, args = cfg['opt'], dict(cfg['hyper']), {}
        if opt.startswith('spsa'):
            o = SPSAOptimizer
            if opt == 'spsa_bounds':
                args['bounds'] = [[0.1, 0.9]] * nw
        elif opt == 'roto':
            o = RotosolveOptimizer
        else:
            o = NelderMeadOptimizer
            if opt == 'nm_adaptive':
                hp['adaptive'] = True
            if opt == 'nm_bounds':
                args['bounds'] = [[0.0, 1.0]] * nw
        return QuantumTrainer(model, loss or q_loss, cfg['epochs'], o, hp,
                              optimizer_args=args, **common)
    o, args = TOPT[cfg['opt']]
    return PytorchTrainer(model, loss or t_loss, cfg['epochs'], optimizer=o,
                          learning_rate=cfg['lr'], optimizer_args=args,
                          **common)


def fit(cfg, trainer, train, val, **kw):
    if cfg['es_criterion'] is not None:
        kw['early_stopping_criterion'] = cfg['es_criterion']
    if not cfg['minimize']:
        kw['minimize_criterion'] = False
    if cfg['es_interval'] is not None:
        kw['early_stopping_interval'] = cfg['es_interval']
    trainer.fit(train, val, eval_interval=cfg['eval_interval'],
                eval_mode=cfg['eval_mode'],
                log_interval=cfg['log_interval'], **kw)


def seed_globals(n):
    """A new process starts with unrelated generator states."""
    random.seed(n)
    np.random.seed(n % (1 << 32))
    torch.manual_seed(n)


# --------------------------------------------------------------- comparison
def weights_of(model):
    w = model.weights
    if isinstance(w, torch.nn.ParameterList):
        out = [p.detach().numpy().copy() for p in w]
        if hasattr(model, 'net'):
            out += [p.detach().numpy().copy()
                    for p in model.net.parameters()]
        return out
    if torch.is_tensor(w):
        return [w.detach().numpy().copy()]
    return [np.array(w, copy=True)]


def plain(x):
    """Convert to comparable plain data."""
    if torch.is_tensor(x):
        return x.detach().cpu().numpy()
    if isinstance(x, torch.nn.ParameterList):
        return [plain(p) for p in x]
    return x


def diff(a, b, tol=0.0, path='', skip=()):
    """None when equal, else a description of the first difference."""
    a, b = plain(a), plain(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} vs {b.shape}'
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            return None if (a == b).all() else f'{path}: differs'
        if tol:
            ok = np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
        else:
            ok = np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
        if ok:
            return None
        m = np.abs(a.astype(float) - b.astype(float)).max() if a.size else 0
        return f'{path}: values differ by up to {m:.3g}'
    if isinstance(a, dict) and isinstance(b, dict):
        ka = {k for k in a if not any(s in str(k) for s in skip)}
        kb = {k for k in b if not any(s in str(k) for s in skip)}
        if ka != kb:
            return f'{path}: keys {sorted(map(str, ka ^ kb))} differ'
        for k in sorted(ka, key=str):
            d = diff(a[k], b[k], tol, f'{path}.{k}', skip)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: length {len(a)} vs {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, f'{path}[{i}]', skip)
            if d:
                return d
        return None
    if isinstance(a, (float, np.floating)) or isinstance(b, (float,
                                                             np.floating)):
        try:
            if math.isnan(a) and math.isnan(b):
                return None
            ok = (abs(a - b) <= tol * (1 + abs(b))) if tol else a == b
        except TypeError:
            ok = False
        return None if ok or a == b else f'{path}: {a!r} vs {b!r}'
    try:
        same = bool(a == b)
    except Exception:
        same = repr(a) == repr(b)
    if same or (type(a) is type(b) and repr(a) == repr(b)
                and ' at 0x' not in repr(a)):
        return None
    if ' at 0x' in repr(a) and type(a) is type(b):
        return None                  # opaque objects are not compared
    return f'{path}: {a!r:.80} vs {b!r:.80}'


def entries(path):
    """Checkpoint content as lambeq reads it, outside the simulation."""
    return dict(Checkpoint.from_file(path).entries)


def outcome(trainer):
    return {
        'weights': weights_of(trainer.model),
        'optimizer': trainer.optimizer.state_dict(),
        'train_costs': list(trainer.train_costs),
        'train_epoch_costs': list(trainer.train_epoch_costs),
        'val_costs': list(trainer.val_costs),
        'train_eval_results': dict(trainer.train_eval_results),
        'val_eval_results': dict(trainer.val_eval_results),
        'n_durations': [len(trainer.train_durations),
                        len(trainer.train_epoch_durations),
                        len(trainer.val_durations)],
    }


class Scratch:
    """A scratch directory that exists for one simulated run."""

    def __init__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') else None
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='dst-', dir=base))

    def __enter__(self):
        return self.path

    def __exit__(self, *exc):
        seams.DISK = None
        seams.CLOCK = None
        shutil.rmtree(self.path, ignore_errors=True)
        return False
