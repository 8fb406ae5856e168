"""P19: lambeq computes the same things in every process."""
import gc
import os
import pickle
import random
import tempfile
import threading
import time

import numpy as np
import torch

from dst import core, parsers as DP, seams, zygote
from dst.core import HarnessError, Violation
from dst.props import p15

from lambeq import (BinaryCrossEntropyLoss, Dataset, NumpyModel,  # noqa: F401
                    PennyLaneModel, PytorchModel, PytorchQuantumModel,
                    TketModel)
from lambeq.experimental.discocirc import CoreferenceResolver, DisCoCircReader

ID = 'P19'
RUNS = {'quick': 600, 'thorough': 60000}
BLOCK = 25
RULE = ('A case is a list of tasks (parsing, reading, text to circuit, '
        'ansaetze, rewriting, conversion, models, data sets, evaluation) run '
        'in one undisturbed simulated process and in another with its own '
        'hash seed, other memory addresses, garbage collections, earlier '
        'work, thread, clock and working directory, and in another order; '
        'non-trivial when a task gave a result.')
STATE_MEASURE = '(kinds of tasks, disturbances, kinds of results)'
REAL = ['BobcatParser, tagger and chart parser', 'OncillaParser', 'readers',
        'DisCoCircReader and its tree rewriter', 'CCGTree', 'ansaetze',
        'rewriters', 't|ket> and PennyLane converters', 'model classes',
        'Dataset', 'string hashing of the interpreter']
STUB = ['transformer encoders of the parsers (table of scores per token)',
        'coreference resolver (scripted)', 'clock']
ASSUMPTIONS = [
    'The random generators of NumPy, PyTorch and Python are seeded alike in '
    'both processes.',
    'Numbers may differ by rounding (other alignment in memory).',
    'Sets are compared as sets.']
SHRINK_LISTS = {'tasks', 'history', 'specs', 'words', 'text'}
MINIMISE_S = 120
SEEDS = [0, 1, 2, 3, 4, 5]
POOL = None
KINDS = ['parse', 'batch', 'tree', 'oparse', 'obatch', 'read', 'ansatz',
         'clean', 'rewrite', 'json', 'normal', 'text', 'eval', 'teval',
         'subs', 'numpy', 'torch', 'qtorch', 'tk', 'tk', 'penny', 'symbols',
         'symbols', 'circ', 'circ', 'circ', 'dataset', 'pickle', 'ccg', 'draw', 'draw']
MODELS = {'numpy': NumpyModel, 'tket': TketModel, 'torchq':
          PytorchQuantumModel, 'torch': PytorchModel, 'penny': PennyLaneModel}


# ------------------------------------------------------------- generation
def gen_tasks(r, case, n):
    out = []
    for _ in range(n):
        k = r.choice(KINDS)
        if k == 'circ':
            out.append(gen_circ(r))
        elif k in ('tk', 'penny', 'symbols', 'dataset', 'pickle', 'ccg',
                   'draw'):
            t = {'do': k, 'own': r.random() < 0.5,
                 'which': r.choice(['iqp', 'sim14', 'disc']),
                 'ds': [r.randrange(3) for _ in range(r.choice([1, 2, 3]))],
                 'v': r.randrange(1 << 16),
                 'model': r.choice(sorted(MODELS)),
                 'words': p15.gen_words(r)}
            if k == 'draw':
                t['circ'] = gen_circ(r) if r.random() < 0.6 else None
            out.append(t)
        else:
            t = p15.gen_task(r, k, case)
            if t.get('backend') == 'jax':
                t['backend'] = 'numpy'
            out.append(t)
    return out


def gen_circ(r):
    text, nouns = [], []
    for i in range(r.choice([1, 2, 2, 3])):
        s = p15.gen_words(r)
        if r.random() < 0.3:
            s = s + ['and', r.choice(DP.NOUNS)]
        text.append(s)
        nouns += [[i, j] for j, w in enumerate(s) if w in DP.NOUNS]
    corefs = []
    left = list(nouns)
    r.shuffle(left)
    while left and r.random() < 0.8:
        k = r.choice([1, 2, 2, 3])
        corefs.append(sorted(left[:k]))
        left = left[k:]
    corefs += [[x] for x in nouns]
    return {'do': 'circ', 'own': True, 'text': text, 'corefs': corefs,
            'sandwich': r.random() < 0.5, 'break': r.random() < 0.8,
            'pruned': sorted({r.choice(DP.NOUNS) for _ in
                              range(r.choice([0, 0, 1, 2, 3]))}),
            'freq': r.choice([1, 1, 2]),
            'rules': r.choice([None, ['determiner', 'auxiliary'],
                               ['noun_modification', 'verb_modification'],
                               ['sentence_modification', 'determiner'], []]),
            'foliated': r.random() < 0.5}


def gen(r, i, tier):
    case = {'specs': [p15.gen_sentence(r)
                      for _ in range(r.choice([1, 2, 3]))]}
    base = p15.gen(r, i, tier)
    case['parser'] = base['parser']
    case['mixed'] = base['mixed']
    case['symbols_used'] = base['symbols_used']
    case['tasks'] = gen_tasks(r, case, r.choice([3, 4, 6, 8]))
    case['history'] = gen_tasks(r, case, r.choice([0, 0, 1, 3]))
    case['hash'] = r.choice(SEEDS[1:])
    case['order'] = r.random()
    case['disturb'] = sorted(k for k in ('gc', 'heap', 'clock', 'cwd',
                                         'thread', 'env', 'order')
                             if r.random() < 0.35)
    case['noise'] = r.randrange(1 << 20)
    return case


# ------------------------------------------------------------------- tasks
class Corefs(CoreferenceResolver):
    def __init__(self, text, corefs):
        self.text, self.corefs = text, corefs

    def tokenise_and_coref(self, text):
        out = []
        for c in self.corefs:
            row = [[] for _ in self.text]
            for i, j in c:
                if i < len(row) and j < len(self.text[i]):
                    row[i].append(j)
            out.append(row)
        return [list(s) for s in self.text], out


def circuits(world, t):
    src = {'iqp': world.circ, 'sim14': world.circ14,
           'disc': world.disc}[t['which']]
    return [src[k % len(src)] for k in t['ds']]


def text_to_circuit(case, t):
    # one parser of our own; the text is split by the resolver
    p = DP.make('oncilla', case['parser'])
    rd = DisCoCircReader(p, Corefs(t['text'], t['corefs']))
    return rd.text2circuit(
        ' '.join(' '.join(s) for s in t['text']),
        sandwich=t['sandwich'], break_cycles=t['break'],
        pruned_nouns=t['pruned'], min_noun_freq=t['freq'],
        rewrite_rules=t['rules'], foliated_frame_labels=t['foliated'])


def perform(world, case, t):
    from lambeq.backend.converters.tk import from_tk
    do = t['do']
    if do == 'circ':
        d = text_to_circuit(case, t)
        return [d, repr(d)]
    if do == 'tk':
        out = []
        for c in circuits(world, t):
            syms = sorted(c.free_symbols, key=str)
            c = (c.lambdify(*syms)(*p15.weights_for(syms, 1, None))
                 if syms and t['v'] % 3 else c)
            tkc = c.to_tk()
            out += [str(tkc.get_commands()), repr(tkc.post_selection),
                    repr(tkc), from_tk(tkc)
                    if not syms or t['v'] % 3 else None]
        return out
    if do == 'penny':
        out = []
        for c in circuits(world, t):
            syms = sorted(c.free_symbols, key=str)
            c = (c.lambdify(*syms)(*p15.weights_for(syms, 1, None))
                 if syms else c)
            pc = c.to_pennylane()
            out.append(pc.eval().detach().numpy())
        return out
    if do in ('symbols', 'pickle'):
        cls = MODELS[t['model']]
        if t['model'] == 'torch':
            ds = [world.tens['tensor'][k % len(world.tens['tensor'])]
                  for k in t['ds']]
        else:
            ds = [world.circ[k % len(world.circ)] for k in t['ds']]
        if t['v'] % 2:
            ds = ds[::-1]
        if do == 'pickle':
            return [pickle.loads(pickle.dumps(d)) for d in ds]
        if t['model'] == 'tket':
            m = cls.from_diagrams(ds, backend_config={
                'backend': None, 'compilation': None, 'shots': 1})
        else:
            m = cls.from_diagrams(ds)
        seed_all(t['v'])
        m.initialise_weights()
        w = m.weights
        w = [p15.plain(x) for x in w] if w is not None else []
        return [str([repr(s) for s in m.symbols]),
                [np.asarray(x, dtype=float) for x in w]]
    if do == 'dataset':
        n = t['v'] % 7 + 1
        seed_all(t['v'])
        ds = Dataset([f'd{k}' for k in range(n)], list(range(n)),
                     batch_size=t['v'] % 3, shuffle=True)
        return str([list(map(list, ds)) for _ in range(2)])
    if do == 'draw':
        d = {'iqp': world.circ, 'sim14': world.circ14,
             'disc': world.diagrams}[t['which']][0]
        if t['circ']:
            try:
                d = text_to_circuit(case, t['circ'])
            except Exception:
                pass
        with tempfile.TemporaryDirectory(prefix='dst-draw-') as root:
            path = os.path.join(root, 'd.tikz')
            d.draw(to_tikz=True, path=path, show=False,
                   foliated=bool(t['v'] % 2),
                   draw_as_pregroup=t['v'] % 3 == 0,
                   color_boxes=t['v'] % 5 > 2, color_wires=t['v'] % 7 > 3)
            with seams.real.open(path) as f:
                return f.read()
    if do == 'ccg':
        p = DP.make('bobcat', case['parser'])
        tr = p.sentence2tree(p15.sentence(t['words']))
        return [tr.deriv(), tr.deriv(vertical=True)
                if t['v'] % 2 else None, repr(tr),
                tr.collapse_noun_phrases().deriv()]
    return p15.perform(world, t)


def seed_all(n):
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.dtype != complex else [
            x.real.tolist(), x.imag.tolist()]
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return [[jsonable(k), jsonable(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(y) for y in x)
    if isinstance(x, (np.integer, np.floating)):
        return x.item()
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def do_task(world, case, t):
    seed_all(11)
    try:
        return jsonable(p15.result(perform(world, case, t)))
    except HarnessError:
        raise
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:300]]


class Kept:
    pass


def simulated(arg):
    """Runs in a process of its own; returns the results of the tasks."""
    case, disturb = arg['case'], arg['disturb']
    out = {}

    def work():
        r = random.Random(case['noise'])
        junk = []
        if 'heap' in disturb:
            junk = [bytearray(r.randrange(1, 4000)) if r.random() < 0.5
                    else Kept() for _ in range(r.randrange(2000))]
            del junk[::2]
        if 'gc' in disturb:
            gc.set_threshold(r.choice([1, 5, 50]))
        p15.fresh_process()
        p15.neat()
        if 'history' in disturb:
            c = dict(case, threads=[{'tasks': case['history']}])
            w = p15.World(circ_world(c))
            for t in case['history']:
                do_task(w, case, t)
        c = dict(case, threads=[{'tasks': case['tasks']}])
        w = p15.World(circ_world(c))
        order = list(range(len(case['tasks'])))
        if 'order' in disturb:
            r.shuffle(order)
        for k in order:
            if 'heap' in disturb:
                junk.append([Kept() for _ in range(r.randrange(50))])
            out[k] = do_task(w, case, case['tasks'][k])
            if 'gc' in disturb:
                gc.collect()
    if 'cwd' in disturb:
        os.chdir('/')
    if 'env' in disturb:
        os.environ.update(LANG='tr_TR.UTF-8', LC_ALL='C', TZ='Asia/Tokyo',
                          COLUMNS='31', HOME='/nonexistent', TERM='dumb',
                          USER='nobody')
        time.tzset()
    clock = seams.SimClock()
    if 'clock' in disturb:
        clock.wall = 4.0e9 + case['noise']
    clock.__enter__()
    if 'thread' in disturb:
        err = []

        def guarded():
            try:
                work()
            except BaseException as e:
                err.append(e)
        t = threading.Thread(target=guarded)
        t.start()
        t.join()
        if err:
            raise err[0]
    else:
        work()
    return [out[k] for k in range(len(case['tasks']))]


def circ_world(c):
    """p15's world needs to know that circuits are used."""
    extra = [{'do': 'eval', 'own': True}]
    return dict(c, threads=c['threads'] + [{'tasks': extra}])


# ------------------------------------------------------------------ running
def warm():
    """Imports that the tasks would do; nothing of lambeq is run."""
    import importlib
    for m in ('lambeq.backend.converters.tk', 'lambeq.backend.pennylane',
              'discopy', 'matplotlib', 'pennylane', 'sympy', 'pytket.utils',
              'lambeq.backend.drawing', 'lambeq.backend.drawing.text_printer',
              'torch.distributions', 'jax', 'scipy.stats', 'pytket.qasm'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    p15.prepare()


def prepare():
    global POOL
    if POOL is None or POOL.pid != os.getpid():
        POOL = zygote.Pool('dst.props.p19', SEEDS)


def near(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(near, a, b))
    if (isinstance(a, (int, float)) and isinstance(b, (int, float))
            and not isinstance(a, bool) and not isinstance(b, bool)):
        return a == b or a != a and b != b or (
            abs(a - b) <= 1e-6 + 1e-4 * abs(b))
    return a == b


def first_diff(a, b):
    a, b = core.json.dumps(a), core.json.dumps(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    k = max(0, k - 60)
    return f'...{a[k:k + 160]} instead of ...{b[k:k + 160]}'


def run(case, ctx):
    if not case['tasks']:
        return
    disturb = case['disturb'] + (['history'] if case['history'] else [])
    asks = [POOL.ask(0, 'simulated', {'case': case, 'disturb': []}),
            POOL.ask(case['hash'], 'simulated',
                     {'case': case, 'disturb': disturb})]
    want, got = [a() for a in asks]
    ctx.steps += 2 * len(case['tasks'])
    ctx.fault('hash_seed')
    for d in disturb:
        ctx.fault('process_' + d)
    kinds = [w[0] for w in want]
    for t, k in zip(case['tasks'], kinds):
        ctx.probe(f'{t["do"]}_{"fails" if k == "error" else "works"}')
    ctx.nontrivial = any(k != 'error' for k in kinds)
    ctx.state([t['do'] for t in case['tasks']], disturb, kinds)
    ctx.event(core.digest(case['tasks']), kinds)
    for t, w, g in zip(case['tasks'], want, got):
        if w[0] == g[0] == 'error':
            if w[1] != g[1]:
                raise Violation('other_error', f'{t["do"]} raises {g[1]} '
                                f'({g[2]}) in one process and {w[1]} ({w[2]})'
                                ' in another')
            continue
        if not near(w, g):
            raise Violation(
                'process_dependent', f'{t["do"]} gives another result in a '
                f'process with hash seed {case["hash"]} and {disturb}: '
                f'{first_diff(g, w)}')
