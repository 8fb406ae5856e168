"""P21: a call that is interrupted leaves lambeq as it was."""
import ast
import dis
import io
import os
import pickle
import sys
import threading
import warnings

import numpy as np
import torch

from dst import ccg, core, parsers as DP, train as T, zygote
from dst.core import HarnessError, Violation
from dst.device import Device
from dst.props import p10, p15, p19

import lambeq
from lambeq import (CCGBankParser, Dataset, IQPAnsatz, MPSAnsatz, NumpyModel,
                    PytorchModel, Sim4Ansatz, Sim9Ansatz, Sim9CxAnsatz,
                    Sim15Ansatz, SpiderAnsatz, StronglyEntanglingAnsatz,
                    TensorAnsatz, TketModel)
from lambeq.backend.drawing import draw_equation, to_gif
from lambeq.backend.grammar import Ty
from lambeq.backend.tensor import Dim
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode
from lambeq.backend import numerical_backend as nb
from lambeq.experimental.discocirc import DisCoCircReader, TreeRewriter
from lambeq.training.tn_path_optimizer import CachedTnPathOptimizer

ID = 'P21'
RUNS = {'quick': 700, 'thorough': 80000}
BLOCK = 25
RULE = ('A case is a list of tasks over shared objects (parsing, reading, '
        'text to circuit, functors, ansaetze, rewriting, evaluation, models, '
        'conversion, drawing, saving, training) in one simulated process; '
        'before each task is done it is started one to four times and '
        'stopped by an interrupt, an out-of-memory error or another '
        'exception at a chosen line of lambeq; non-trivial when an interrupt '
        'was delivered.')
STATE_MEASURE = '(task, exception, source file and line it was raised at)'
REAL = ['all of lambeq that the tasks use: parsers, readers, functors, '
        'ansaetze, rewriters, models, converters, drawing, checkpoints, '
        'trainers, datasets']
STUB = ['transformer encoders of the parsers', 'coreference resolver']
ASSUMPTIONS = [
    'Interrupts arrive between lines of lambeq, not inside third-party '
    'libraries, and not while a failure or the end of a context is being '
    'handled or a context is being entered (no Python program can promise '
    'more).',
    'An aborted training run may have changed the weights of its model.']
SHRINK_LISTS = {'tasks', 'specs', 'words', 'text', 'stops', 'lists', 'ds'}
MINIMISE_S = 120
SEEDS = [0]
POOL = None
KINDS = ['parse', 'batch', 'tree', 'oparse', 'obatch', 'read', 'ansatz',
         'ansatz', 'clean', 'rewrite', 'user', 'json', 'normal', 'text',
         'eval', 'eval', 'teval', 'subs', 'numpy', 'numpy', 'torch', 'torch',
         'qtorch', 'jit', 'tk', 'penny', 'symbols', 'circ', 'circ', 'dataset',
         'pickle', 'ccg', 'draw', 'png', 'png', 'train', 'train', 'save',
         'save', 'batches', 'paths', 'reader', 'reader', 'circuit',
         'circuit', 'treerules', 'treerules', 'device', 'bank', 'equation']
OWN = {'png', 'train', 'save', 'batches', 'paths', 'reader', 'circuit',
       'treerules', 'device', 'bank', 'equation'}
TWO = {Ty('n'): 2, Ty('s'): 1}
ANSATZ = {
    'strong': lambda: StronglyEntanglingAnsatz(TWO, n_layers=2),
    'strong_ranges': lambda: StronglyEntanglingAnsatz(
        TWO, n_layers=2, ranges=[1, 1]),
    'sim15': lambda: Sim15Ansatz(TWO, n_layers=1),
    'sim4': lambda: Sim4Ansatz(TWO, n_layers=2, discard=True),
    'sim9': lambda: Sim9Ansatz(TWO, n_layers=1),
    'sim9cx': lambda: Sim9CxAnsatz(TWO, n_layers=1),
    'iqp': lambda: IQPAnsatz(TWO, n_layers=2, n_ancillas=1),
    'tensor': lambda: TensorAnsatz({Ty('n'): Dim(2, 2), Ty('s'): Dim(3)}),
    'spider': lambda: SpiderAnsatz({Ty('n'): Dim(2), Ty('s'): Dim(2)},
                                   max_order=3),
    'mps': lambda: MPSAnsatz({Ty('n'): Dim(2), Ty('s'): Dim(2)},
                             bond_dim=3, max_order=3)}
RULES = ['determiner', 'auxiliary', 'noun_modification',
         'verb_modification', 'sentence_modification']
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'RuntimeError': RuntimeError, 'RecursionError': RecursionError}


# -------------------------------------------------------------- generation
def gen_stops(r):
    return [{'at': round(r.random() ** r.choice([1, 1, 3]), 5),
             'line': round(r.random(), 5) if r.random() < 0.75 else None,
             'risky': r.random() < 0.6,
             'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt',
                              'MemoryError', 'RuntimeError',
                              'RecursionError'])}
            for _ in range(r.choice([1, 1, 2, 4]))]


def gen_task(r, case):
    k = r.choice(KINDS)
    if k not in OWN:
        while True:
            t = p19.gen_tasks(r, case, 1)[0]
            if t['do'] == k:
                break
            if k in ('user', 'jit'):
                t = p15.gen_task(r, k, case)
                break
    else:
        t = {'do': k, 'own': False, 'd': r.randrange(3),
             'v': r.randrange(1 << 12)}
        if k == 'train':
            t['cfg'] = T.gen_config(r)
            t['cfg']['epochs'] = min(t['cfg']['epochs'], 3)
            if not t['cfg']['model'].startswith('stub'):
                t['cfg']['epochs'] = min(t['cfg']['epochs'], 2)
                t['cfg']['n_train'] = min(t['cfg']['n_train'], 2)
            t['resume'] = r.random() < 0.6
        if k == 'reader':
            t['circ'] = p19.gen_circ(r)
        if k == 'circuit':
            t['which'] = r.choice(sorted(ANSATZ))
        if k == 'treerules':
            t['tree'] = gen_tree(r)
            t['rules'] = r.sample(RULES, r.choice([0, 1, 2, 4]))
        if k == 'bank':
            t['lists'] = [['w%d' % r.randrange(20)
                           for _ in range(r.choice([1, 2, 3, 5]))]
                          for _ in range(r.choice([1, 2, 3]))]
        if k in ('save', 'paths'):
            t['model'] = r.choice(['numpy', 'torch', 'qtorch'])
    if k != 'jit':
        t['own'] = t['own'] and r.random() < 0.3
    t['stops'] = gen_stops(r)
    return t


def gen_tree(r, depth=3):
    typ = r.choice(['n', 'n', 's', 'n.r@s'])
    word = r.choice(['the', 'a', 'has', 'Did', 'dog', 'runs', 'red'])
    n = r.choice([0, 1, 1, 1, 2]) if depth else 0
    kids = [gen_tree(r, depth - 1) for _ in range(n)]
    if n == 1 and r.random() < 0.6:
        kids[0][1] = typ
    return [word, typ, kids]


def build_tree(t, count):
    typ = {'n': Ty('n'), 's': Ty('s'), 'n.r@s': Ty('n').r @ Ty('s')}[t[1]]
    count[0] += 1
    n = count[0]
    return PregroupTreeNode(word=t[0], typ=typ, ind=n,
                            children=[build_tree(c, count) for c in t[2]])


def tree_text(t):
    return [t.word, str(t.typ), t.ind, [tree_text(c) for c in t.children]]


class Quiet:
    steps = 0
    sim_time = 0.0

    def fault(self, *a):
        pass


def gen(r, i, tier):
    base = p15.gen(r, i, tier)
    case = {'specs': base['specs'], 'parser': base['parser'],
            'mixed': base['mixed'], 'symbols_used': base['symbols_used']}
    case['tasks'] = [gen_task(r, case) for _ in range(r.choice([1, 2, 3, 5]))]
    case['outer'] = r.choice([None, None, None, 'jax', 'pytorch'])
    return case


# --------------------------------------------------------- raising anywhere
ROOT = os.path.dirname(os.path.realpath(lambeq.__file__)) + os.sep
SHUT = {}


def shut_lines(path):
    """Lines at which nothing is raised: handlers, cleanup, with-lines."""
    if path not in SHUT:
        with open(path, encoding='utf8') as f:
            tree = ast.parse(f.read())
        lines = set()

        def span(a, b):
            lines.update(range(a, b + 1))
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                for b in [n.finalbody] + [h.body for h in n.handlers]:
                    if b:
                        span(b[0].lineno, b[-1].end_lineno)
                for h in n.handlers:
                    lines.add(h.lineno)
                lines.add(n.lineno)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                span(n.lineno, n.items[-1].context_expr.end_lineno)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                deco = ' '.join(ast.unparse(d) for d in n.decorator_list)
                if ('contextmanager' in deco or n.name in
                        ('__enter__', '__exit__', '__del__')):
                    span(n.lineno, n.end_lineno)
        SHUT[path] = lines
    return SHUT[path]


RISKY = {}
CHANGES = {'append', 'pop', 'add', 'update', 'remove', 'clear', 'insert',
           'extend', 'setdefault', 'discard', 'popitem', 'sort', 'reverse',
           'appendleft', 'popleft'}


def risky_lines(path):
    """Lines of functions that change an object they did not make."""
    if path not in RISKY:
        with open(path, encoding='utf8') as f:
            tree = ast.parse(f.read())
        lines = set()

        def changes(n):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                return True
            if isinstance(n, ast.Attribute):
                return not isinstance(n.ctx, ast.Load)
            if isinstance(n, ast.Subscript):
                return not isinstance(n.ctx, ast.Load)
            return (isinstance(n, ast.Call)
                    and isinstance(n.func, ast.Attribute)
                    and n.func.attr in CHANGES)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) \
                    and n.name not in ('__init__', '__post_init__',
                                       '__new__') \
                    and any(changes(x) for x in ast.walk(n)):
                lines.update(range(n.lineno, n.end_lineno + 1))
        RISKY[path] = lines
    return RISKY[path]


class Stopper:
    """Counts the lines of lambeq and raises at the one asked for.

    Either the n-th line done (`at`), or the n-th time one line of the
    source (`line`) is done.
    """

    def __init__(self, at=None, exc=None, line=None):
        self.at, self.exc, self.line = at, exc, line
        self.n = 0
        self.where = None
        self.seen = {}

    def open(self, frame):
        # An exception of a trace function at the head of a loop in an
        # inlined comprehension is not seen by the with-block around it
        if dis.opname[frame.f_code.co_code[frame.f_lasti]] in (
                'FOR_ITER', 'END_FOR', 'CACHE'):
            return False
        while frame is not None:
            name = frame.f_code.co_filename
            if name.startswith(ROOT) and frame.f_lineno in shut_lines(name):
                return False
            frame = frame.f_back
        return True

    def calls(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(ROOT):
            return None
        if self.line is not None and name[len(ROOT):] != self.line[0]:
            return None
        return self.lines

    def lines(self, frame, event, arg):
        if event == 'line':
            if self.at is None:
                key = (frame.f_code.co_filename, frame.f_lineno)
                self.seen[key] = self.seen.get(key, 0) + 1
            elif self.line is not None and self.line != (
                    frame.f_code.co_filename[len(ROOT):], frame.f_lineno):
                return self.lines
            self.n += 1
            if self.at is not None and self.n >= self.at \
                    and self.where is None and self.open(frame):
                self.where = (frame.f_code.co_filename[len(ROOT):],
                              frame.f_lineno)
                raise self.exc('stopped here')
        return self.lines

    def __enter__(self):
        sys.settrace(self.calls)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------- tasks
class Shared:
    """Objects of the process that tasks of our own use again and again."""

    def __init__(self, world, case, root):
        self.world, self.case, self.root = world, case, root
        self.kept = {}
        self.round = 0

    def keep(self, key, make):
        if key not in self.kept:
            self.kept[key] = make()
        return self.kept[key]


def model_for(sh, t, **kw):
    w = sh.world
    src = w.tens['tensor'] if t['model'] == 'torch' else w.circ
    m = {'numpy': NumpyModel, 'torch': PytorchModel,
         'qtorch': p15.PytorchQuantumModel}[t['model']].from_diagrams(src, **kw)
    p19.seed_all(t['v'])
    m.initialise_weights()
    if hasattr(m, 'eval'):
        m.eval()
    one = src[t['d'] % len(src)]
    return m, [one]


def picture(path):
    from PIL import Image
    with Image.open(path) as im:
        a = np.asarray(im.convert('RGB'))
    return [list(a.shape), core.digest(a.tolist())]


def perform(sh, t, again):
    """`again` is false while the task may be stopped."""
    do = t['do']
    world, case = sh.world, sh.case
    if do == 'png':
        d = [world.diagrams, world.circ, world.tens['tensor']][t['v'] % 3]
        path = os.path.join(sh.root, 'pic.png')
        d[t['d'] % len(d)].draw(path=path, show=False, figsize=(3, 2))
        return picture(path)
    if do == 'reader':
        c = t['circ']

        def reader():
            return DisCoCircReader(DP.make('oncilla', case['parser']),
                                   Switched())
        rd = sh.keep('reader', reader)
        rd.coref_resolver.now = p19.Corefs(c['text'], c['corefs'])
        rules = sh.keep(('rules', repr(c['rules'])), lambda: c['rules'])
        return rd.text2circuit(
            ' '.join(' '.join(s) for s in c['text']),
            sandwich=c['sandwich'], break_cycles=c['break'],
            pruned_nouns=c['pruned'], min_noun_freq=c['freq'],
            rewrite_rules=rules, foliated_frame_labels=c['foliated'])
    if do == 'circuit':
        f = sh.keep(('ansatz', t['which']), ANSATZ[t['which']])
        return f(world.diagrams[t['d'] % len(world.diagrams)])
    if do == 'treerules':
        rw = sh.keep(('rewriter', tuple(t['rules'])),
                     lambda: TreeRewriter(list(t['rules'])))
        tree = sh.keep(('tree', repr(t['tree'])),
                       lambda: build_tree(t['tree'], [-1]))
        before = tree_text(tree)
        after = rw(tree)
        return str([before, tree_text(after), repr(after), str(after),
                    after.get_words()])
    if do == 'device':
        dev = sh.keep('device', lambda: Device(False, {
            'noise': 0, 'delays': [0], 'bit_order': None}, Quiet()))
        one = world.circ[t['d'] % len(world.circ)]

        def model():
            m = TketModel.from_diagrams([one], backend_config={
                'backend': dev, 'shots': 1024,
                'compilation': dev.default_compilation_pass(1)})
            m.weights = np.array(p15.weights_for(m.symbols, t['v'] % 3, None),
                                 dtype=float)
            return m
        m = sh.keep(('tket', t['d'] % len(world.circ), t['v'] % 3), model)
        return [np.asarray(m([one] * (1 + t['v'] % 2)), dtype=float)]
    if do == 'bank':
        root = os.path.join(sh.root, 'bank-' + core.digest([t['lists'], t['v']])[:8])
        name = os.path.join(root, 'data', 'AUTO', '01', 'wsj_0100.auto')
        if not os.path.exists(name):
            text = ''
            for n, words in enumerate(t['lists']):
                r = core.rng_for('bank', t['v'], n)
                text += (f'ID=wsj_0100.{n + 1} PARSER=GOLD NUMPARSE=1\n'
                         + p10.write_auto(ccg.tree(r, words), r) + '\n')
            os.makedirs(os.path.dirname(name), exist_ok=True)
            with open(name, 'w') as f:
                f.write(text)
        p = sh.keep(('bank', root), lambda: CCGBankParser(root))
        out = p.section2diagrams(1, planar=bool(t['v'] % 2),
                                 suppress_exceptions=True)
        gen = p.section2trees_gen(1)
        first = next(gen)
        gen.close()
        return [str(sorted(out)), [out[k] for k in sorted(out)],
                str(first[0]), repr(first[1])]
    if do == 'equation':
        ds = world.diagrams
        path = os.path.join(sh.root, 'eq' + ['.png', '.tikz', '.gif',
                                             '.png'][t['v'] % 4])
        if t['v'] % 4 == 2:
            to_gif([ds[0], ds[0]], path=path, show=False, figsize=(2, 2))
        else:
            draw_equation(ds[0], ds[t['d'] % len(ds)], path=path, show=False,
                          figsize=(3, 2), to_tikz=t['v'] % 4 == 1)
        if t['v'] % 4 == 1:
            with open(path) as f:
                return f.read()
        return picture(path)
    if do == 'batches':
        n = t['v'] % 6 + 1
        ds = sh.keep(('ds', n, t['v'] % 4), lambda: Dataset(
            [f'd{k}' for k in range(n)], list(range(n)),
            batch_size=t['v'] % 4, shuffle=bool(t['v'] % 2)))
        return str([[list(map(list, ds)) for _ in range(2)], len(ds),
                    [ds[k] for k in range(n)]])
    if do == 'save':
        m, ds = sh.keep(('model', t['model'], t['d'] % len(world.circ),
                         t['v']), lambda: model_for(sh, t))
        path = os.path.join(sh.root, f'{t["model"]}{t["d"]}-{t["v"]}.lt')
        if not again and t['v'] % 2 and not os.path.exists(path):
            m.save(path)
        m.save(path)
        m2 = type(m).from_checkpoint(path)
        if hasattr(m2, 'eval'):
            m2.eval()
        m.load(path)
        return [predict(m2, ds), predict(m, ds), str(m2.symbols)]
    if do == 'paths':
        path = os.path.join(sh.root, 'paths.bin')
        if t['model'] == 'numpy':
            t = dict(t, model='torch')
        opt = CachedTnPathOptimizer(save_file=path)
        m, ds = model_for(sh, t, tn_path_optimizer=opt)
        return predict(m, ds)
    return p19.perform(world, case, t)


class Switched(p19.CoreferenceResolver):
    now = None

    def tokenise_and_coref(self, text):
        return self.now.tokenise_and_coref(text)


def predict(m, ds):
    if isinstance(m, torch.nn.Module):
        with torch.no_grad():
            return m(ds)
    return m(ds)


def training(sh, t, again):
    """A training run; repeated, it may take up what was saved before."""
    cfg = t['cfg']
    path = os.path.join(sh.root, f'run{sh.round}')
    resume = (again and t['resume']
              and os.path.exists(os.path.join(path, 'model.lt')))
    if again and not resume:
        path += '-again'
    p19.seed_all(7)
    os.makedirs(path, exist_ok=True)
    m = T.fresh_model(cfg)
    train, val = T.datasets(cfg)
    tr = T.fresh_trainer(cfg, m, path, resume)
    T.fit(cfg, tr, train, val)
    out = T.outcome(tr)
    out.pop('n_durations')
    return [str(resume), out]


def do_task(sh, t, again):
    p19.seed_all(11)
    if t['do'] == 'train':
        return training(sh, t, again)
    return p15.result(wrap(perform(sh, t, again)))


def wrap(x):
    if isinstance(x, (list, tuple)):
        return [wrap(y) for y in x]
    if isinstance(x, (int, float)) or x is None or isinstance(x, str):
        return str(x)
    return x


def answer(sh, t):
    try:
        return do_task(sh, t, True)
    except HarnessError:
        raise
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:300]]


# ---------------------------------------------------------------- settings
def settings():
    import matplotlib.pyplot as plt
    import tensornetwork.backend_contextmanager as tb
    return {
        'numerical backend': nb.get_backend().__name__,
        'tensornetwork backend': str(tb.get_default_backend()
                                     if hasattr(tb, 'get_default_backend')
                                     else None),
        'gradient mode': torch.is_grad_enabled(),
        'default type of torch': str(torch.get_default_dtype()),
        'numpy error handling': repr(sorted(np.geterr().items())),
        'open figures': repr(plt.get_fignums()),
        'interactive drawing': plt.isinteractive(),
        'settings of matplotlib': core.digest(
            {k: repr(v) for k, v in plt.rcParams.items()}),
        'working directory': os.getcwd(),
        'environment': core.digest(sorted(os.environ.items())),
        'threads': sorted(t.name for t in threading.enumerate()),
        'streams': [sys.stdout is STREAMS[0], sys.stderr is STREAMS[1]],
        'recursion limit': sys.getrecursionlimit(),
        'warnings': len([f for f in warnings.filters
                         if 'Tqdm' not in repr(f[2])])}


STREAMS = [None, None]


def inputs(world):
    out = world.snapshot()
    for k, v in list(out.items()):
        if 'weights' in k:
            out[k] = repr(v)
    return core.digest({k: repr(v) for k, v in out.items()})


# ------------------------------------------------------------- the process
def enter(case):
    p15.fresh_process()
    p15.neat()
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    STREAMS[:] = [sys.stdout, sys.stderr]
    tasks = [t for t in case['tasks'] if t['do'] not in OWN]
    c = dict(case, threads=[{'tasks': tasks}])
    return p15.World(p19.circ_world(c))


def plain(arg):
    """The tasks without interruption: their results and lengths."""
    case = arg['case']
    world = enter(case)
    out = []
    with T.Scratch() as root, nb.backend(case['outer'] or 'numpy'):
        sh = Shared(world, case, root)
        for k, t in enumerate(case['tasks']):
            sh.round = k
            with Stopper() as s:
                r = answer(sh, dict(t, resume=False))
            shut = {p: shut_lines(p) for p, _ in s.seen}
            out.append([r, s.n, [(p[len(ROOT):], n, c)
                                 for (p, n), c in s.seen.items()
                                 if n not in shut[p]]])
    return pack(out)


def pack(x):
    import base64
    return base64.b64encode(pickle.dumps(x)).decode()


def unpack(x):
    import base64
    return pickle.loads(base64.b64decode(x))


def stopped(arg):
    """The tasks with interruptions before each of them."""
    case, lengths = arg['case'], arg['lengths']
    world = enter(case)
    log, out, wrong = [], [], []
    first = inputs(world)
    with T.Scratch() as root, nb.backend(case['outer'] or 'numpy'):
        sh = Shared(world, case, root)
        answers = {}
        for k, t in enumerate(case['tasks']):
            for j, stop in enumerate(t['stops']):
                sh.round = f'{k}-{j}'
                want = settings()
                n, seen = lengths[k]
                line = None
                if stop['risky']:
                    seen = [x for x in seen
                            if x[1] in risky_lines(ROOT + x[0])] or seen
                if stop['line'] is not None and seen:
                    f, ln, n = seen[int(stop['line'] * len(seen))]
                    line = (f, ln)
                s = Stopper(1 + int(stop['at'] * n), EXC[stop['exc']], line)
                try:
                    with s:
                        do_task(sh, t, False)
                    end = 'returned'
                except HarnessError:
                    if s.where is None:
                        raise
                    end = 'HarnessError'
                except BaseException as e:
                    end = type(e).__name__
                    e.__traceback__ = None
                log.append([t['do'], stop['exc'], s.where, end])
                if s.where is None:
                    continue
                have = settings()
                for name in want:
                    if have[name] != want[name]:
                        wrong.append([
                            'setting_left', f'{t["do"]} stopped by '
                            f'{stop["exc"]} at {s.where[0]}:{s.where[1]} '
                            f'leaves the {name} as {have[name]} instead of '
                            f'{want[name]}'])
                if inputs(world) != first:
                    wrong.append(['input_changed', f'{t["do"]} stopped by '
                                  f'{stop["exc"]} at {s.where[0]}:'
                                  f'{s.where[1]} changed what it was given'])
                if wrong:
                    return pack([log, None, wrong])
                answers.setdefault(k, []).append(answer(sh, t))
            if k not in answers:
                sh.round = k
                answers[k] = [answer(sh, t)]
        for k, t in enumerate(case['tasks']):
            sh.round = f'{k}-end'
            out.append(answers[k] + [answer(sh, t)])
    return pack([log, out, wrong])


# ----------------------------------------------------------------- running
def warm():
    import importlib
    p19.warm()
    for m in ('matplotlib.pyplot', 'matplotlib.backends.backend_agg',
              'PIL.PngImagePlugin', 'jax.numpy', 'maverick'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def prepare():
    global POOL
    if POOL is None or POOL.pid != os.getpid():
        POOL = zygote.Pool('dst.props.p21', SEEDS)


def same(t, a, b):
    if a[0] == 'error' or b[0] == 'error':
        return a[:2] == b[:2]
    if t['do'] == 'train':
        tol = 0.0 if t['cfg']['model'].startswith('stub') else 1e-5
        return T.diff(a[1], b[1], tol) is None
    return p15.same(a, b)


def show(t, x):
    if x[0] == 'error':
        return f'{x[1]} ({x[2]})'
    if t['do'] == 'train':
        return 'a training run'
    return p15.show(x)


def run(case, ctx):
    if not case['tasks']:
        return
    want = unpack(POOL.ask(0, 'plain', {'case': case})())
    log, got, wrong = unpack(POOL.ask(0, 'stopped', {
        'case': case, 'lengths': [w[1:] for w in want]})())
    ctx.steps += sum(w[1] for w in want)
    for do, exc, where, end in log:
        if where is None:
            ctx.probe('not_reached')
            continue
        ctx.fault(exc)
        ctx.nontrivial = True
        ctx.probe(f'{do}_stopped')
        ctx.state(do, exc, where)
        if end == 'returned':
            ctx.probe('went_on')
    ctx.event(core.digest(case['tasks']), log)
    for rule, text in wrong:
        raise Violation(rule, text)
    for k, (t, (w, _, _)) in enumerate(zip(case['tasks'], want)):
        for g in got[k]:
            if not same(t, w, g):
                more = (': ' + str(T.diff(w[1], g[1], 1e-5))[:200]
                        if t['do'] == 'train' and 'error' not in (w[0], g[0])
                        else '')
                raise Violation(
                    'different_afterwards', f'{t["do"]}, repeated after it '
                    f'was stopped ({[x[1:3] for x in log if x[2]][-3:]}), gives '
                    f'{show(t, g)} instead of {show(t, w)}' + more)
