"""P06: loading a checkpoint is all or nothing."""
import os
import pickle

import numpy as np
import torch

from dst import train as T
from dst.core import Guard, HarnessError, SimKill, Violation
from dst.seams import SimClock, SimDisk, bypass, real

ID = 'P06'
RUNS = {'quick': 4000, 'thorough': 120000}
IMPORTS = ['pennylane', 'jax.numpy', 'torch.utils.serialization.config']
RULE = ('A case is a model of some class and a history of weight changes, '
        'predictions and loads from checkpoints that are intact, truncated, '
        'foreign, incomplete, garbled, missing or unreadable at a chosen '
        'read; non-trivial when at least one load failed on a model that '
        'was in use.')
STATE_MEASURE = ('(model class, how the file was damaged, what was missing, '
                 'whether it failed)')
REAL = ['Checkpoint.from_file', 'Model.load of QuantumModel, NumpyModel (with '
        'and without JIT), PytorchModel, PytorchQuantumModel, PennyLaneModel '
        'and a user subclass with extra layers']
STUB = ['disk (read faults)', 'forward pass of the analytic models']
ASSUMPTIONS = [
    'A checkpoint whose required entries are all present and of the right '
    'kind is valid even if it was written by another class.',
    'Predictions of contracted networks are compared with tolerance 1e-5.']
SHRINK_LISTS = {'ops'}


class OtherNet(T.StubTorchModel):
    """Same class of model, but an extra layer of another shape."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.net = torch.nn.Linear(4, 3)


class DeepNet(T.StubTorchModel):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.extra = torch.nn.Linear(2, 2)


CLASSES = {**{k: v for k, v in T.MODELS.items()},
           'othernet': (OtherNet, T.TENS), 'deepnet': (DeepNet, T.TENS),
           'jit': (T.JitNumpy, T.CIRCS)}
REQUIRED = {'stubq': ['model_symbols', 'model_weights'],
            'numpy': ['model_symbols', 'model_weights'],
            'jit': ['model_symbols', 'model_weights'],
            'stubt': ['model_symbols', 'model_weights', 'model_state_dict'],
            'othernet': ['model_symbols', 'model_weights',
                         'model_state_dict'],
            'deepnet': ['model_symbols', 'model_weights', 'model_state_dict'],
            'torch': ['model_symbols', 'model_weights', 'model_state_dict'],
            'torchq': ['model_symbols', 'model_weights', 'model_state_dict'],
            'penny': ['model_symbols', 'model_weights', 'model_probabilities',
                      'model_normalize', 'model_diff_method',
                      'model_backend_config', 'model_circuits',
                      'model_state_dict']}
# subsets of the pool a model may be built from
SETS = [[0, 1], [0, 1, 2], [2, 3], [1, 4], [0], [1, 2]]
DAMAGE = ['truncated', 'empty', 'garbage', 'not_a_dict', 'missing_file',
          'missing_entry', 'foreign', 'eio', 'eacces', 'flipped',
          'directory', 'shape', 'state_entry']


def gen(r, i, tier):
    model = r.choice(['stubq'] * 4 + ['stubt'] * 4 + [
        'othernet', 'deepnet', 'numpy', 'torch', 'torchq', 'penny']
        + (['jit'] if r.random() < 0.4 else []))
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        k = r.random()
        if k < 0.2:
            ops.append({'op': 'weights', 'v': r.randrange(100)})
        elif k < 0.45:
            ops.append({'op': 'valid', 'set': r.randrange(len(SETS)),
                        'v': r.randrange(100),
                        'how': r.choice(['load', 'load', 'from_checkpoint'])})
        else:
            ops.append({'op': 'bad', 'damage': r.choice(DAMAGE),
                        'set': r.randrange(len(SETS)), 'v': r.randrange(100),
                        'at': r.random(), 'read': r.randrange(4),
                        'other': r.choice(sorted(set(CLASSES) - {'jit'}))})
    if model == 'jit':
        ops = [dict(op, set=r.choice([0, 5])) for op in ops[:2]]
    return {'model': model, 'set': r.choice([0, 5]) if model == 'jit'
            else r.randrange(len(SETS)),
            'fresh': r.random() < 0.15, 'v': r.randrange(100), 'ops': ops}


def build(name, which, v=None):
    cls, pool = CLASSES[name]
    T.ROUND[0] = False
    m = cls.from_diagrams([pool[j] for j in SETS[which]])
    if v is not None:
        T.seed_globals(v)
        m.initialise_weights()
        set_weights(m, v)
    return m


def set_weights(m, v):
    r = np.random.RandomState(1000 + v)
    if isinstance(m, torch.nn.Module):
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.tensor(r.rand(*p.shape)))
    else:
        m.weights = r.rand(len(m.symbols))


def predict(name, m, which):
    _, pool = CLASSES[name]
    with torch.no_grad():
        return np.asarray(T.plain(m([pool[j] for j in SETS[which]])))


def snapshot(m):
    s = {'symbols': [str(x) for x in m.symbols],
         'nsym': len(m.symbols)}
    w = m.weights
    if isinstance(m, torch.nn.Module):
        s['state'] = {k: v.detach().numpy().copy()
                      for k, v in m.state_dict().items()}
        s['weights'] = [] if isinstance(w, (tuple, list)) and not len(w) \
            else T.weights_of(m)
    else:
        s['weights'] = np.array(w, dtype=float, copy=True)
    return s


def tolerance(name):
    return 0.0 if name in ('stubq', 'stubt', 'othernet', 'deepnet') else 1e-5


def write(path, data):
    with real.open(path, 'wb') as f:
        f.write(data)


def damaged(op, model, path, ctx):
    """Prepare a damaged file.  Returns (path, must_fail, rplan)."""
    src = build(model, op['set'], op['v'])
    src.save(path)
    with real.open(path, 'rb') as f:
        data = f.read()
    d = op['damage']
    if d == 'truncated':
        write(path, data[:int(op['at'] * len(data))])
        return path, True, {}
    if d == 'empty':
        write(path, b'')
        return path, True, {}
    if d == 'garbage':
        write(path, b'\x00\xff not a pickle' * 7)
        return path, True, {}
    if d == 'not_a_dict':
        write(path, pickle.dumps([[1, 2], 'abc', 7, None][op['read'] % 4]))
        return path, True, {}
    if d == 'missing_file':
        return path + '.nowhere', True, {}
    if d == 'directory':
        os.mkdir(path + '.d')
        return path + '.d', True, {}
    if d == 'missing_entry':
        e = pickle.loads(data)
        keys = REQUIRED[model]
        del e[keys[int(op['at'] * len(keys))]]
        write(path, pickle.dumps(e))
        return path, True, {}
    if d == 'shape':
        # a state that does not fit this model's layers
        e = pickle.loads(data)
        if 'model_state_dict' not in e:
            return path, False, {}
        sd = dict(e['model_state_dict'])
        k = sorted(sd)[int(op['at'] * len(sd))]
        sd[k] = torch.zeros(tuple(x + 1 for x in sd[k].shape) or (7, 7))
        e['model_state_dict'] = sd
        write(path, pickle.dumps(e))
        return path, True, {}
    if d == 'state_entry':
        # the state of one of the layers is missing
        e = pickle.loads(data)
        if 'model_state_dict' not in e:
            return path, False, {}
        sd = dict(e['model_state_dict'])
        del sd[sorted(sd)[int(op['at'] * len(sd))]]
        e['model_state_dict'] = sd
        write(path, pickle.dumps(e))
        return path, True, {}
    if d == 'foreign':
        other = build(op['other'], op['set'], op['v'])
        other.save(path)
        with real.open(path, 'rb') as f:
            e = pickle.loads(f.read())
        return path, any(k not in e for k in REQUIRED[model]), {}
    if d == 'flipped':
        b = bytearray(data)
        b[int(op['at'] * len(b))] ^= 0x55
        # only use it when unpickling notices (a flip in a number is valid)
        try:
            pickle.loads(bytes(b))
            b = b[:len(b) // 2]
        except Exception:
            pass
        write(path, bytes(b))
        return path, True, {}
    if d == 'eacces':
        return path, True, {0: 'eacces'}
    return path, False, {op['read']: 'eio'}


def run(case, ctx):
    name = case['model']
    tol = tolerance(name)
    which = case['set']
    with T.Scratch() as root:
        m = build(name, which, None if case['fresh'] else case['v'])
        usable = not case['fresh']
        for n, op in enumerate(case['ops']):
            path = os.path.join(root, f'c{n}.lt')
            when = f'op {n} ({op["op"]} {op.get("damage", "")}) on {name}'
            if op['op'] == 'weights':
                if usable:
                    set_weights(m, op['v'])
                continue
            if op['op'] == 'valid':
                src = build(name, op['set'], op['v'])
                want = predict(name, src, op['set'])
                syms = [str(s) for s in src.symbols]
                if usable and op['how'] == 'load':
                    predict(name, m, which)      # as a model in use
                with Guard('valid-load-fails', when):
                    src.save(path)
                    if op['how'] == 'load' or name in (
                            'othernet', 'deepnet', 'jit'):
                        m.load(path)
                    else:
                        m = CLASSES[name][0].from_checkpoint(path)
                usable, which = True, op['set']
                with Guard('valid-load-fails', when + ': predicting'):
                    got = predict(name, m, op['set'])
                d = T.diff(got, want, tol)
                if d or [str(s) for s in m.symbols] != syms:
                    raise Violation('loaded-model-differs',
                                    f'{when}: predictions{d}')
                ctx.probe('valid_load')
                ctx.event(n, 'valid', name)
                continue
            before = snapshot(m)
            pred = predict(name, m, which) if usable else None
            path, must_fail, rplan = damaged(op, name, path, ctx)
            with SimClock(ctx), SimDisk(root, ctx=ctx) as disk:
                disk.rplan = dict(rplan)
                err = None
                try:
                    m.load(path)
                except Exception as e:
                    err = e
            ctx.event(n, op, name, type(err).__name__)
            ctx.state(name, op['damage'], op['other'] if op['damage'] ==
                      'foreign' else None, type(err).__name__, usable)
            if rplan and not disk.fired:
                must_fail = False
            if err is None:
                if must_fail or disk.fired:
                    raise Violation('damaged-checkpoint-accepted',
                                    f'{when}: load returned normally')
                # a legitimate load: the model is the source now
                usable = op['damage'] != 'foreign'
                if not usable:
                    break
                which = op['set']
                continue
            ctx.fault('load_' + op['damage'])
            if usable:
                ctx.nontrivial = True
            after = snapshot(m)
            d = T.diff(after, before)
            if d:
                raise Violation('failed-load-changes-model',
                                f'{when} failed with {type(err).__name__} '
                                f'and changed the model: {d}')
            if usable:
                with Guard('failed-load-breaks-model', when):
                    p2 = predict(name, m, which)
                d = T.diff(p2, pred, tol)
                if d:
                    raise Violation('failed-load-changes-model',
                                    f'{when}: predictions{d}')
