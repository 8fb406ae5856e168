"""P12: the contraction-path cache never changes results, survives faults."""
import os
import random
from pathlib import Path

import numpy as np
import opt_einsum as oe

from dst import core, sched
from dst.core import HarnessError, SimKill, Violation
from dst.seams import SimDisk
from dst.train import Scratch

from lambeq.backend import numerical_backend as nb
from lambeq.backend import quantum as q
from lambeq.backend.tensor import Box, Cup, Dim, Id, Spider, Swap
from lambeq.training.checkpoint import Checkpoint
from lambeq.training.pytorch_model import PytorchModel
from lambeq.training.tn_path_optimizer import (
    CachedTnPathOptimizer, ordered_nodes_contractor)

ID = 'P12'
RUNS = {'quick': 3000, 'thorough': 200000}
RULE = ('A case is a pool of tensor networks and a history of process '
        'lifetimes that share a cache file and a checkpoint: evaluations, '
        'alone or in several threads, with disk faults, kills and power '
        'loss; non-trivial when a path was reused, a fault fired or threads '
        'were switched.')
STATE_MEASURE = ('(faults fired so far, what the file held at start, '
                 'operation, hit or miss, threads)')
REAL = ['CachedTnPathOptimizer', 'ordered_nodes_contractor', 'PytorchModel',
        'tensor.Diagram.to_tn', 'tensornetwork', 'pickle', 'Checkpoint']
STUB = ['disk (fault layer over a scratch directory)',
        'thread scheduler (baton passed at traced source lines)',
        'path search (a registered opt_einsum algorithm that draws a valid '
        'path from a seeded generator and counts its calls; also the real '
        'ones)']
ASSUMPTIONS = [
    'Only one process uses a cache file at a time.',
    'An OSError from a faulty disk may end the evaluation that met it.',
    'Saved paths are only required to be found again after a lifetime in '
    'which no fault fired.']
SHRINK_LISTS = {'lives', 'ops', 'disk', 'rdisk', 'schedule', 'which'}
ALGOS = ['dst-random'] * 6 + ['greedy', 'auto', 'auto-hq', 'random-greedy']
DISK = ['crash'] * 3 + ['torn'] * 4 + ['crash_after', 'enospc', 'enospc',
                                       'enospc_sticky', 'eio', 'eacces',
                                       'short', 'emfile']
CALLS = [0]
RNG = [random.Random(0)]


def random_path(inputs, output, size_dict, memory_limit=None, **kw):
    CALLS[0] += 1
    sched.touch('path')
    n = len(inputs)
    path = []
    while n > 1:
        a, b = sorted(RNG[0].sample(range(n), 2))
        path.append((a, b))
        n -= 1
    return path


try:
    oe.paths.register_path_fn('dst-random', random_path)
except KeyError:
    pass


# ------------------------------------------------------------ workloads
def gen_network(r, most=5):
    """A tensor network: boxes with legs, and how the legs are joined."""
    if r.random() < 0.2:
        return {'kind': 'circuit', 'n': r.choice([1, 2, 3]),
                'seed': r.randrange(1 << 20), 'gates': r.randrange(1, 7)}
    dims = [r.choice([2, 2, 3]) for _ in range(r.randrange(1, most + 1))]
    nbox = r.randrange(1, most + 1)
    boxes = [[] for _ in range(nbox)]
    joins = []
    for d in dims:
        arity = r.choice([2, 2, 2, 2, 3, 1])
        ends = [r.randrange(nbox) for _ in range(arity)]
        joins.append([d, ends])
        for e in ends:
            boxes[e].append(len(joins) - 1)
    for b in boxes:
        r.shuffle(b)
    return {'kind': 'tensor', 'boxes': boxes,
            'joins': [[d, len(e)] for d, e in joins],
            'seed': r.randrange(1 << 20)}


def mutate_network(r, net):
    """A network that differs from ``net`` in one respect."""
    net = core.json.loads(core.json.dumps(net))
    net['seed'] = r.randrange(1 << 20)
    if net['kind'] == 'tensor':
        k = r.random()
        if k < 0.4:
            j = r.randrange(len(net['joins']))
            net['joins'][j][0] = 5 - net['joins'][j][0]
        elif k < 0.6:
            r.choice(net['boxes']).reverse()
        elif k < 0.8:
            r.shuffle(net['boxes'])
    return net


def build(net):
    rng = np.random.RandomState(net['seed'])
    if net['kind'] == 'circuit':
        r = random.Random(net['seed'])
        n = net['n']
        c = q.Ket(*[r.randrange(2) for _ in range(n)])
        for _ in range(net['gates']):
            k = r.randrange(n)
            if n > 1 and r.random() < 0.5:
                k = min(k, n - 2)
                g = r.choice([q.CX, q.CZ, q.CRz(0.3)])
                w = 2
            else:
                g = r.choice([q.H, q.Rx(r.random()), q.Rz(0.2), q.Ry(0.7)])
                w = 1
            c = c >> (q.Id(q.qubit ** k) @ g @ q.Id(q.qubit ** (n - k - w)))
        m = r.randrange(n + 1)
        return c >> (q.Bra(*[r.randrange(2) for _ in range(m)])
                     @ q.Id(q.qubit ** (n - m))) if m else c
    joins = net['joins']
    d = Id(Dim())
    wires = []
    for k, b in enumerate(net['boxes']):
        dims = [joins[j][0] for j in b]
        size = int(np.prod(dims)) if dims else 1
        d = d @ Box(f'b{k}', Dim(1), Dim(*dims), (rng.rand(size) + 0.1).tolist())
        wires += list(b)
    left = 0                         # open wires already in place

    def bring(pos, to):
        nonlocal d
        while pos > to:
            ws = [Dim(joins[j][0]) for j in wires]
            mid = Swap(ws[pos - 1], ws[pos])
            d = d >> (cat(ws[:pos - 1]) @ mid @ cat(ws[pos + 1:]))
            wires[pos - 1], wires[pos] = wires[pos], wires[pos - 1]
            pos -= 1
    for j, (dim, arity) in enumerate(joins):
        for k in range(arity):
            bring(next(p for p in range(left + k, len(wires))
                       if wires[p] == j), left + k)
        ws = [Dim(joins[x][0]) for x in wires]
        rest = cat(ws[left + arity:])
        if arity == 2:
            d = d >> (cat(ws[:left]) @ Cup(Dim(dim), Dim(dim)) @ rest)
            del wires[left:left + 2]
        elif arity == 3:
            d = d >> (cat(ws[:left]) @ Spider(Dim(dim), 3, 1) @ rest)
            del wires[left:left + 2]
            left += 1
        else:
            left += 1
    return d


def cat(dims):
    out = Id(Dim())
    for x in dims:
        out = out @ Id(x)
    return out


def race_schedule(r, n):
    if r.random() < 0.6:
        return {'random': r.choice([0.7, 0.5, 0.3, 0.1]),
                'seed': r.randrange(1 << 30)}
    return sched.gen_schedule(r, n)


def gen(r, i, tier):
    pool = [gen_network(r) for _ in range(r.choice([1, 2, 2, 3]))]
    for _ in range(r.choice([0, 1, 2])):
        pool.append(mutate_network(r, r.choice(pool)))
    if r.random() < 0.35:
        pool = [gen_network(r, 3) for _ in range(3)]
        n = r.choice([2, 2, 3])
        lives = [{'ops': [{'op': 'threads', 'focus': True,
                           'which': [[t] + [r.randrange(len(pool)) for _ in
                                            range(r.choice([0, 1, 1]))]
                                     for t in range(n)],
                           'schedule': race_schedule(r, n)}] * r.choice([1, 2]),
                  'file': r.random() < 0.4, 'pathtype': 'path',
                  'checkpoints': False}]
        return {'pool': pool, 'lives': lives, 'algo': 'dst-random',
                'seed': r.randrange(1 << 20), 'dir': ''}
    lives = []
    for k in range(r.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            x = r.random()
            which = r.randrange(len(pool))
            if x < 0.55:
                ops.append({'op': 'eval', 'net': which})
            elif x < 0.7:
                ops.append({'op': 'model', 'net': which})
            elif x < 0.8:
                ops.append({'op': 'store'})
            elif x < 0.88:
                ops.append({'op': 'restore'})
            else:
                n = r.choice([2, 2, 3])
                ops.append({'op': 'threads',
                            'which': [[r.randrange(len(pool)) for _ in
                                       range(r.choice([1, 1, 2]))]
                                      for _ in range(n)],
                            'focus': r.random() < 0.9,
                            'schedule': sched.gen_schedule(r, n)})
        life = {'ops': ops, 'file': r.random() < 0.75,
                'pathtype': r.choice(['path', 'path', 'str']),
                'checkpoints': r.random() < 0.6}
        if r.random() < 0.5 and life['file']:
            life['disk'] = [[r.choice([0, 1, 2, 3, 4, 6, 8, 12]),
                             r.choice(DISK), round(r.random(), 2)]
                            for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.1 and life['file']:
            life['rdisk'] = [[r.randrange(4), r.choice(['eio', 'short'])]]
        if r.random() < 0.2:
            life['die_at'] = r.randrange(len(ops) + 1)
        if r.random() < 0.4:
            life['loss'] = {'meta': r.choice([0, 0.5, 1]),
                            'data': r.choice([0, 0.3, 0.9, 1])}
        lives.append(life)
    case = {'pool': pool, 'lives': lives, 'algo': r.choice(ALGOS),
            'seed': r.randrange(1 << 20),
            'dir': r.choice(['', '', 'sub', 'a/b'])}
    if r.random() < 0.1:
        case['junk'] = r.choice(sorted(JUNK))
    return case


# ------------------------------------------------------------------ run
# files that no crash of lambeq leaves, but a bad disk or another program does
JUNK = {'empty': b'', 'newline': b'\n', 'zeros': bytes(600),
        'text': b'cached paths', 'protocol': b'\x80\xff....',
        'list': b'\x80\x04]\x94(K\x01K\x02e.', 'none': b'\x80\x04N.',
        'module': b'cno_such_module\nThing\n.',
        'name': b'cbuiltins\nno_such_name\n.',
        'unicode': b'\x80\x04\x8c\x02\xff\xfe\x94.',
        'index': b'\x80\x04e.', 'short': b'\x80\x04\x95'}


class World:
    def __init__(self, case, ctx, root):
        self.case = case
        self.ctx = ctx
        self.root = root
        self.diagrams = [build(n) for n in case['pool']]
        self.want = [np.asarray(d.eval()) for d in self.diagrams]
        self.file = os.path.join(root, case['dir'], 'paths.pkl')
        self.ckpt = None             # (path, nets whose paths it holds)
        self.saved = None            # nets a new process must find
        self.counting = case['algo'] == 'dst-random'
        self.fired = 0


def close(w, net, got, how):
    got = np.asarray(got)
    want = w.want[net]
    if got.shape != want.shape or not np.allclose(got, want, 1e-4, 1e-6):
        raise Violation(
            'wrong_tensor', f'{how} of network {net} with the cached '
            f'contraction path gives {got.tolist()}, without it '
            f'{want.tolist()}')


def run(case, ctx):
    if not case['lives'] or not case['pool']:
        return
    CALLS[0] = 0
    RNG[0] = random.Random(case['seed'])
    with Scratch() as root:
        try:
            w = World(case, ctx, root)
        except Exception as e:
            raise HarnessError(f'reference evaluation: {e!r}') from e
        if case.get('junk'):
            os.makedirs(os.path.dirname(w.file), exist_ok=True)
            with open(w.file, 'wb') as f:
                f.write(JUNK[case['junk']])
        for k, life in enumerate(case['lives']):
            live(w, k, life)
    ctx.event(CALLS[0])


def live(w, k, life):
    ctx = w.ctx
    disk = SimDisk(w.root, {a: [b, c] for a, b, c in life.get('disk', [])},
                   {a: b for a, b in life.get('rdisk', [])}, ctx)
    state = {'known': set(), 'opt': None, 'mine': set()}
    killed = True
    with disk:
        try:
            killed = lifetime(w, k, life, disk, state)
        except SimKill:
            pass
        disk.kill()
    if killed:
        ctx.nontrivial = True
        ctx.fault('process_kill')
        if life.get('loss'):
            ctx.fault('power_loss')
        disk.after_crash(life.get('loss'))
    w.fired += len(disk.fired)
    if killed or disk.fired or state.get('restored'):
        # what the file holds now is only bounded, not exact
        w.saved = None if (disk.fired or life['file']) else w.saved
    elif life['file']:
        w.saved = set(state['mine'])


def make(w, life, disk, what):
    path = None
    if life['file']:
        path = w.file if life['pathtype'] == 'str' else Path(w.file)
    n = len(disk.fired)
    try:
        return CachedTnPathOptimizer(w.case['algo'], save_file=path,
                                     save_checkpoints=life['checkpoints'])
    except OSError as e:
        if len(disk.fired) > n or disk.sticky:
            return None
        raise Violation('unusable_file', f'{what}: the cache file cannot be '
                        f'used: {type(e).__name__}: {e}')
    except SimKill:
        raise
    except Exception as e:
        raise Violation(
            'torn_file', f'{what}: a cache file left by a crash is not '
            f'treated as an empty cache: {type(e).__name__}: {str(e)[:200]}')


def lifetime(w, k, life, disk, state):
    """True when the process dies by a kill at the end."""
    ctx = w.ctx
    opt = make(w, life, disk, f'process {k}')
    if opt is None:
        disk.heal()
        opt = make(w, life, disk, f'process {k}, second attempt')
        if opt is None:
            raise HarnessError('fault after heal')
    state['opt'] = opt
    for j, op in enumerate(life['ops']):
        if life.get('die_at') == j:
            return True
        ctx.steps += 1
        where = f'process {k}, step {j}'
        calls = CALLS[0]
        n = len(disk.fired)
        if op['op'] in ('eval', 'model'):
            net = op['net']
            try:
                evaluate(w, opt, op['op'], net, where)
            except OSError as e:
                if len(disk.fired) == n and not disk.sticky:
                    raise Violation('os_error', f'{where}: {e!r} though the '
                                    'disk did not fail')
                ctx.probe('evaluation_failed_by_disk')
                continue
            new = CALLS[0] - calls
            ctx.state(w.fired > 0, len(disk.fired), op['op'], bool(new),
                      net in state['known'],
                      w.saved is not None and net in w.saved)
            ctx.event(op['op'], net, new)
            if not new:
                ctx.nontrivial = True
                ctx.probe('path_reused')
            if w.counting and new:
                if net in state['known']:
                    raise Violation('forgotten', f'{where}: the path of '
                                    f'network {net} was found before in this '
                                    'process and had to be searched again')
                if (not state.get('restored') and life['file'] and w.saved
                        and net in w.saved and not disk.fired):
                    raise Violation(
                        'not_saved', f'{where}: the path of network {net} '
                        'was saved by an earlier process that ended '
                        'normally, but is not found')
            state['known'].add(net)
            state['mine'].add(net)
        elif op['op'] == 'threads':
            threads(w, opt, op, where, state, disk)
        elif op['op'] == 'store':
            cp = opt.store_to_checkpoint(Checkpoint())
            path = os.path.join(w.root, f'c{k}-{j}.lt')
            try:
                cp.to_file(path)
            except OSError:
                continue
            w.ckpt = (path, set(state['known'])
                      if life['checkpoints'] else set())
        elif op['op'] == 'restore':
            if w.ckpt is None or not os.path.exists(w.ckpt[0]):
                continue
            try:
                cp = Checkpoint.from_file(w.ckpt[0])
            except Exception:
                continue             # judged by P02
            opt.restore_from_checkpoint(cp)
            if w.ckpt[1]:
                ctx.probe('restored_paths')
            # what was cached before may or may not be kept
            state['known'] = set(w.ckpt[1])
            state['restored'] = True
    return life.get('die_at') == len(life['ops'])


def evaluate(w, opt, how, net, where):
    d = w.diagrams[net]
    try:
        if how == 'model' and w.case['pool'][net]['kind'] == 'tensor':
            m = PytorchModel(tn_path_optimizer=opt)
            m.symbols, m.weights = [], []
            with nb.backend('pytorch'):
                got = m.get_diagram_output([d])[0].detach().numpy()
        else:
            got = d.eval(contractor=lambda n, e=None, *a, **kw:
                         ordered_nodes_contractor(n, opt, e, *a, **kw))
    except (SimKill, OSError, Violation, HarnessError):
        raise
    except sched.ThreadKilled:
        raise
    except Exception as e:
        raise Violation(
            'evaluation_failed', f'{where}: evaluating network {net} with '
            f'the path cache raised {type(e).__name__}: {str(e)[:200]}') \
            from e
    close(w, net, got, where)


def threads(w, opt, op, where, state, disk):
    if not op['which']:
        return
    n = len(disk.fired)

    def program(nets, o):
        def body():
            for net in nets:
                try:
                    evaluate(w, o, 'eval', net, where + ' (thread)')
                except OSError:
                    if len(disk.fired) == n and not disk.sticky:
                        raise
        return body
    shadow = CachedTnPathOptimizer(w.case['algo'])
    rng = RNG[0].getstate()
    focus = ['tn_path_optimizer.py'] if op['focus'] else None
    s0 = sched.sequential([program(x, shadow) for x in op['which']],
                          focus=focus)
    for t in s0.threads:
        if t.error is not None:
            raise t.error
    RNG[0].setstate(rng)
    s = sched.concurrent([program(x, opt) for x in op['which']],
                         op['schedule'], sched.profile_of(s0), focus=focus)
    w.ctx.steps += s.total
    if s.deadlock:
        raise Violation('deadlock', f'{where}: threads sharing the path '
                        'cache wait for each other for ever')
    if s.switches:
        w.ctx.nontrivial = True
        w.ctx.fault('thread_switch', len(s.switches))
        w.ctx.state('threads', s.switches)
    w.ctx.event(s.switches)
    for t in s.threads:
        if t.error is None:
            continue
        if isinstance(t.error, (Violation, HarnessError, SimKill)):
            raise t.error
        raise Violation('thread_failed', f'{where}: {t.error!r}')
