"""P15: threads that parse, apply functors and evaluate at the same time."""
import pickle
import sys
import types

import numpy as np
import tensornetwork as tn
import torch

from dst import parsers as DP
from dst import sched
from dst.core import HarnessError, Violation, digest, rng_for
from dst.props import p16

from lambeq import (AtomicType, BobcatParser, IQPAnsatz, MPSAnsatz, NumpyModel,
                    PytorchModel, PytorchQuantumModel, RemoveCupsRewriter,
                    RemoveSwapsRewriter, Rewriter, Sim14Ansatz, SpiderAnsatz,
                    TensorAnsatz, UnifyCodomainRewriter, bag_of_words_reader,
                    cups_reader, spiders_reader, stairs_reader,
                    word_sequence_reader)
from lambeq.backend import numerical_backend as nb
from lambeq.backend.grammar import Box, Diagram as GDiagram, Functor, Ty
from lambeq.backend.tensor import Dim
from lambeq.text2diagram import TreeReader, TreeReaderMode

ID = 'P15'
RUNS = {'quick': 500, 'thorough': 40000}
BLOCK = 10
IMPORTS = ['jax.numpy']
RULE = ('A case is two to four threads, each with a list of tasks (parsing, '
        'reading, functors, ansaetze, rewriting, conversion, evaluation, '
        'model calls) on objects of its own or shared with other threads, '
        'and a schedule of preemptions; non-trivial when a thread was '
        'preempted.')
STATE_MEASURE = '(kinds of tasks, sequence of thread switches)'
REAL = ['BobcatParser, tagger and chart parser', 'OncillaParser', 'readers',
        'CCGTree', 'Functor', 'ansaetze', 'Rewriter and DiagramRewriter '
        'classes', 'quantum and tensor evaluation', 'NumpyModel',
        'PytorchModel', 'PytorchQuantumModel', 'numerical_backend']
STUB = ['transformer encoders of the parsers (table of scores per token)',
        'thread scheduler']
ASSUMPTIONS = [
    'Threads are preempted between lines (sometimes bytecodes) of lambeq; '
    'third-party libraries run without preemption.',
    'Shared objects are used read-only: nobody trains or changes them.']
SHRINK_LISTS = {'threads', 'tasks', 'schedule', 'words', 'specs'}
MINIMISE_S = 90

N, S = AtomicType.NOUN, AtomicType.SENTENCE
WORDS = DP.NOUNS + DP.TRANS + DP.INTR + DP.ADJ + DP.DET + DP.ADV
READERS = {'cups': cups_reader, 'spiders': spiders_reader,
           'stairs': stairs_reader, 'bag': bag_of_words_reader,
           'seq': word_sequence_reader}
ANSATZ = {
    'iqp': lambda d: IQPAnsatz({N: 1, S: 1}, n_layers=1, discard=d),
    'sim14': lambda d: Sim14Ansatz({N: 1, S: 1}, n_layers=1, discard=d),
    'tensor': lambda d: TensorAnsatz({N: Dim(2), S: Dim(3)}),
    'spider': lambda d: SpiderAnsatz({N: Dim(2), S: Dim(2)}, max_order=2),
    'mps': lambda d: MPSAnsatz({N: Dim(2), S: Dim(2)}, bond_dim=2)}
QUANTUM = ['iqp', 'sim14']
THEMES = {
    'bobcat': ['parse', 'parse', 'parse', 'batch', 'tree'],
    'oncilla': ['oparse', 'oparse', 'obatch'],
    'parsers': ['parse', 'oparse', 'batch', 'read', 'tree'],
    'functor': ['ansatz', 'ansatz', 'rewrite', 'clean', 'user', 'json',
                'normal', 'text'],
    'eval': ['eval', 'eval', 'teval', 'subs'],
    'model': ['numpy', 'numpy', 'torch', 'qtorch', 'eval', 'teval'],
    'jit': ['jit', 'eval', 'eval', 'torch', 'qtorch', 'numpy'],
    'all': ['parse', 'oparse', 'read', 'ansatz', 'rewrite', 'clean', 'user',
            'json', 'normal', 'eval', 'teval', 'numpy', 'torch', 'qtorch',
            'subs', 'tree', 'text']}


# ------------------------------------------------------------- generation
def gen_words(r, long=False):
    x = r.random()
    if x < 0.15:
        return [r.choice(WORDS) for _ in range(r.choice([1, 2, 3]))]
    if x < 0.2:
        return [r.choice(['untaggable', 'nocat', 'Alice']), 'runs']
    out = [r.choice(DP.NOUNS), r.choice(DP.TRANS), r.choice(DP.NOUNS)]
    if x < 0.4:
        out = out[:1] + [r.choice(DP.INTR)]
    if r.random() < 0.4:
        out[:0] = [r.choice(DP.ADJ)]
    if r.random() < 0.3:
        out += [r.choice(DP.ADV)]
    if long:
        out[:0] = [r.choice(DP.ADJ) for _ in range(r.choice([1, 2, 4]))]
    return out


def gen_task(r, kind, case):
    n = len(case['specs'])
    own = r.random() < 0.3
    t = {'do': kind, 'own': own}
    if kind in ('parse', 'oparse', 'tree'):
        t['words'] = gen_words(r, r.random() < 0.3)
    elif kind in ('batch', 'obatch'):
        t['lists'] = [gen_words(r, r.random() < 0.2)
                      for _ in range(r.choice([2, 2, 3]))]
    elif kind == 'read':
        t['words'] = gen_words(r)
        t['reader'] = r.choice(sorted(READERS) + ['tree', 'tree'])
        t['mode'] = r.randrange(4)
    elif kind in ('ansatz',):
        t['d'], t['which'] = r.randrange(n), r.choice(sorted(ANSATZ))
    elif kind == 'eval':
        t['d'], t['which'] = r.randrange(n), r.choice(QUANTUM + ['disc'])
        t['mixed'] = r.random() < 0.5
        t['backend'] = r.choice(['numpy', 'numpy', None, 'pytorch', 'jax'])
        t['w'] = r.randrange(3)
    elif kind == 'teval':
        t['d'], t['which'] = r.randrange(n), r.choice(['tensor', 'spider',
                                                       'mps'])
        t['backend'] = r.choice(['numpy', None, 'pytorch', 'jax'])
        t['w'] = r.randrange(3)
    elif kind in ('numpy', 'torch', 'qtorch', 'jit'):
        t['ds'] = [r.randrange(n) for _ in range(r.choice([1, 1, 2]))]
    elif kind == 'clean':
        t['d'], t['which'] = r.randrange(n), r.choice(['cups', 'swaps',
                                                       'unify'])
    elif kind == 'subs':
        t['d'], t['which'] = r.randrange(n), r.choice(sorted(ANSATZ))
        t['w'] = r.randrange(3)
    else:
        t['d'] = r.randrange(n)
        t['v'] = r.randrange(4)
    return t


def gen(r, i, tier):
    theme = r.choice(sorted(THEMES) if r.random() < 0.9 else ['all'])
    if theme == 'jit' and r.random() < 0.5:
        theme = 'eval'
    case = {'theme': theme,
            'specs': [gen_sentence(r) for _ in range(r.choice([1, 2, 3]))],
            'parser': {'salt': r.randrange(50), 'empties': r.choice([-2, 0, 3]),
                       'max_len': 60, 'eisner': r.random() < 0.5,
                       'beam': r.choice([2, 4]), 'missing': -20.0,
                       'root_cats': ['S[dcl]', 'NP', 'N'],
                       'tagger': {'batch_size': r.choice([1, 2, 8]),
                                  'tag_top_k': r.choice([2, 3]),
                                  'tag_prob_threshold': 0.01,
                                  'tag_prob_threshold_strategy': 'relative',
                                  'span_top_k': 2,
                                  'span_prob_threshold': 0.1,
                                  'span_prob_threshold_strategy': 'relative'}},
            'mixed': r.random() < 0.5,
            'symbols_used': r.random() < 0.3}
    nt = r.choice([2, 2, 2, 3, 4])
    case['threads'] = [
        {'tasks': [gen_task(r, r.choice(THEMES[theme]), case)
                   for _ in range(r.choice([1, 1, 2, 3]))]}
        for _ in range(nt)]
    if r.random() < 0.4:
        # several threads doing the same thing
        case['threads'][1] = pickle.loads(pickle.dumps(case['threads'][0]))
    case['order'] = r.sample(range(nt), nt)
    case['focus'] = round(r.random(), 3) if r.random() < 0.5 else None
    case['opcodes'] = case['focus'] is not None and r.random() < 0.3
    if case['focus'] is not None and (case['opcodes'] or r.random() < 0.6):
        case['schedule'] = {'random': r.choice([0.9, 0.5, 0.3, 0.1, 0.03]),
                            'seed': r.randrange(1 << 30)}
    else:
        case['schedule'] = sched.gen_schedule(r, nt)
    return case


def gen_sentence(r):
    return {'words': [r.choice(['Bob', 'Ann', 'the', 'likes', 'sings'])
                      for _ in range(r.choice([1, 2, 2, 3]))],
            'swap': r.random() < 0.3}


# ----------------------------------------------------- process-wide state
TABLES = None


def tables():
    """Mutable containers that lambeq's modules and classes hold."""
    seen, out = set(), []

    def look(v, where):
        if isinstance(v, (list, dict, set)) and id(v) not in seen:
            seen.add(id(v))
            out.append((where, v, v.copy()))
        elif hasattr(v, 'cache_clear') and id(v) not in seen:
            seen.add(id(v))
            out.append((where, v, None))
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] != 'lambeq' or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith('__'):
                continue
            look(v, f'{name}.{k}')
            if isinstance(v, type) and v.__module__ == name:
                for kk, vv in list(vars(v).items()):
                    if not kk.startswith('__'):
                        look(vv, f'{name}.{k}.{kk}')
            elif isinstance(v, types.FunctionType) and v.__module__ == name:
                for n, d in enumerate(v.__defaults__ or ()):
                    look(d, f'{name}.{k}()#{n}')
    return out


def prepare():
    global TABLES
    import lambeq.training  # noqa: F401
    import lambeq.experimental  # noqa: F401
    TABLES = tables()


def fresh_process():
    """Every process-wide table is what it is right after import."""
    if TABLES is None:
        prepare()
    for where, obj, first in TABLES:
        if first is None:
            obj.cache_clear()
        elif isinstance(obj, list):
            if obj != first:
                obj[:] = first
        elif len(obj) != len(first) or obj != first:
            obj.clear()
            obj.update(first)


# ------------------------------------------------------------- the objects
def user_ob(f, t):
    return Ty('x') @ Ty('y') if t == Ty('n') else t


def user_ar(f, b):
    return Box(b.name + "'", f(b.dom), f(b.cod), z=b.z)


class World:
    """The objects the threads share."""

    def __init__(self, case):
        self.case = case
        self.diagrams = [p16.build_sentence(s) for s in case['specs']]
        kinds = {t['do'] for th in case['threads'] for t in th['tasks']}
        shared = {t['do'] for th in case['threads'] for t in th['tasks']
                  if not t['own']}
        self.cache = {}
        if shared & {'parse', 'batch', 'tree'}:
            self.cache['bobcat'] = self.make('bobcat')
        if shared & {'oparse', 'obatch'}:
            self.cache['oncilla'] = self.make('oncilla')
        for name in ANSATZ:
            for disc in (False, True):
                self.cache[name, disc] = ANSATZ[name](disc)
        self.cache['user'] = self.make('user')
        self.cache['rewriter'] = self.make('rewriter')
        for w in ('cups', 'swaps', 'unify'):
            self.cache[w] = self.make(w)
        # circuits and tensors that threads share
        self.circ, self.disc, self.tens = [], [], {}
        if kinds & {'eval', 'numpy', 'jit', 'qtorch', 'subs', 'teval',
                    'torch'}:
            a = ANSATZ['iqp']
            self.circ = [a(False)(d) for d in self.diagrams]
            self.disc = [a(True)(d) for d in self.diagrams]
            self.circ14 = [ANSATZ['sim14'](False)(d) for d in self.diagrams]
            for k in ('tensor', 'spider', 'mps'):
                self.tens[k] = [ANSATZ[k](None)(d) for d in self.diagrams]
            if case['symbols_used']:
                for d in self.circ + self.disc:
                    d.free_symbols
        for k in ('numpy', 'jit', 'torch', 'qtorch'):
            if k in shared:
                self.cache[k] = self.make(k)
        if kinds & {'tree'}:
            p = self.make('bobcat')
            try:
                self.tree = p.sentence2tree('Alice sees Bob')
            except Exception:
                self.tree = None

    def get(self, name, own):
        return self.make(name) if own else self.cache[name]

    def make(self, name):
        c = self.case
        if name in ('bobcat', 'oncilla'):
            return DP.make(name, c['parser'])
        if isinstance(name, tuple):
            return ANSATZ[name[0]](name[1])
        if name == 'user':
            return Functor(GDiagram.category if hasattr(GDiagram, 'category')
                           else p16.G.grammar, ob=user_ob, ar=user_ar)
        if name == 'rewriter':
            return Rewriter(['auxiliary', 'connector', 'determiner',
                             'postadverb', 'preadverb', 'coordination',
                             'curry'])
        if name == 'cups':
            return RemoveCupsRewriter()
        if name == 'swaps':
            return RemoveSwapsRewriter()
        if name == 'unify':
            return UnifyCodomainRewriter(Ty('s'))
        ds = self.circuits()
        if name in ('numpy', 'jit'):
            m = NumpyModel.from_diagrams(ds, use_jit=name == 'jit')
            m.weights = np.array([0.05 + 0.07 * (k % 11)
                                  for k in range(len(m.symbols))])
        elif name == 'qtorch':
            m = PytorchQuantumModel.from_diagrams(ds)
            m.weights = torch.nn.ParameterList([
                torch.tensor(0.05 + 0.07 * (k % 11))
                for k in range(len(m.symbols))])
        elif name == 'torch':
            m = PytorchModel.from_diagrams(self.tens['tensor'])
            m.weights = torch.nn.ParameterList([
                values(s.size, k) for k, s in enumerate(m.symbols)])
        else:
            raise HarnessError(name)
        if hasattr(m, 'eval'):
            m.eval()
        return m

    def circuits(self):
        return self.disc if self.case['mixed'] else self.circ

    def snapshot(self):
        out = {}

        def look(name, d):
            out[name] = describe(d)
        for i, d in enumerate(self.diagrams):
            look(f'diagram {i}', d)
        for i, d in enumerate(self.circ):
            look(f'circuit {i}', d)
        for i, d in enumerate(self.disc):
            look(f'mixed circuit {i}', d)
        for k, ds in self.tens.items():
            for i, d in enumerate(ds):
                look(f'{k} diagram {i}', d)
        for k in ('numpy', 'jit', 'torch', 'qtorch'):
            if k in self.cache:
                m = self.cache[k]
                out[f'symbols of the {k} model'] = repr(list(m.symbols))
                out[f'weights of the {k} model'] = [
                    plain(w) for w in m.weights]
        return out


def values(n, k):
    return torch.tensor([((3 * j + 5 * k) % 7 - 3) / 4 for j in range(n)],
                        dtype=torch.float32)


def plain(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().numpy()
    return np.asarray(x).tolist()


def describe(d):
    """What a user can see of a diagram."""
    out = [repr(d.dom), repr(d.cod)]
    for b, off in zip(d.boxes, d.offsets):
        while hasattr(b, 'controlled'):
            out.append((str(b), repr(getattr(b, 'distance', None))))
            b = b.controlled
        data = getattr(b, 'data', None)
        if isinstance(data, np.ndarray) or torch.is_tensor(data):
            data = plain(data)
        sym = sorted(repr(s) for s in getattr(b, 'free_symbols', []) or [])
        out.append((str(b), repr(b.dom), repr(b.cod), off, repr(data), sym,
                    getattr(b, 'z', None)))
    return out


# ------------------------------------------------------------- the tasks
def sentence(words):
    return ' '.join(words)


def result(x):
    """A comparable form: ('array', module, dtype, shape, values) or text."""
    if x is None or isinstance(x, str):
        return ['text', x]
    if isinstance(x, list):
        return ['list'] + [result(y) for y in x]
    if torch.is_tensor(x):
        return ['array', 'torch', str(x.dtype), list(x.shape),
                np.asarray(x.detach().numpy())]
    if isinstance(x, np.ndarray) or np.isscalar(x):
        return ['array', 'numpy', str(np.asarray(x).dtype),
                list(np.shape(x)), np.asarray(x)]
    if type(x).__module__.split('.')[0] in ('jax', 'jaxlib'):
        return ['array', 'jax', str(x.dtype), list(x.shape), np.asarray(x)]
    if hasattr(x, 'boxes'):
        return ['diagram', describe(x)]
    if hasattr(x, 'to_json'):
        return ['text', x.to_json()]
    raise HarnessError(f'unexpected result {type(x)}')


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'list':
        return len(a) == len(b) and all(same(x, y)
                                        for x, y in zip(a[1:], b[1:]))
    if a[0] == 'array':
        return a[1:4] == b[1:4] and bool(
            np.allclose(a[4], b[4], rtol=1e-4, atol=1e-6, equal_nan=True))
    return a == b


def show(x):
    if x[0] == 'array':
        return f'{x[1]} {x[2]} {np.round(x[4], 5).tolist()}'[:150]
    if x[0] == 'list':
        return '[' + ', '.join(show(y) for y in x[1:])[:150] + ']'
    return str(x[1:])[:150]


def weights_for(symbols, w, backend):
    out = []
    for k, s in enumerate(symbols):
        if getattr(s, 'size', 1) > 1 or backend == 'torchlist':
            out.append(values(s.size, k + w).numpy())
        else:
            out.append(0.1 + 0.13 * ((k * 3 + w) % 7))
    return out


def evaluate(world, t):
    if t['do'] == 'eval':
        src = {'iqp': world.circ, 'sim14': world.circ14,
               'disc': world.disc}[t['which']]
    else:
        src = world.tens[t['which']]
    d = src[t['d'] % len(src)]
    syms = sorted(d.free_symbols, key=lambda s: s.sort_key()
                  if hasattr(s, 'sort_key') else str(s))
    vals = weights_for(syms, t['w'], None)

    def go(b):
        v = vals
        if b == 'pytorch':
            v = [torch.tensor(x, dtype=torch.float64
                              if t['do'] == 'eval' else torch.float32)
                 for x in vals]
        elif b == 'jax':
            import jax.numpy as jnp
            v = [jnp.asarray(x) for x in vals]
        c = d.lambdify(*syms)(*v) if syms else d
        sched.touch('eval')
        if t['do'] == 'eval':
            return c.eval(mixed=t['mixed'])
        return c.eval()
    b = t['backend']
    if b is None:
        return go('numpy')
    with nb.backend(b):
        return go(b)


def perform(world, t):
    do = t['do']
    if do in ('parse', 'oparse'):
        p = world.get('bobcat' if do == 'parse' else 'oncilla', t['own'])
        return p.sentence2diagram(sentence(t['words']))
    if do in ('batch', 'obatch'):
        p = world.get('bobcat' if do == 'batch' else 'oncilla', t['own'])
        return p.sentences2diagrams([sentence(w) for w in t['lists']],
                                    suppress_exceptions=True)
    if do == 'tree':
        if t['own'] or world.tree is None:
            p = world.get('bobcat', t['own'])
            tr = p.sentence2tree(sentence(t['words']))
        else:
            tr = world.tree
        sched.touch('tree')
        return [tr.to_diagram(), tr.to_diagram(planar=True)
                if hasattr(tr, 'to_diagram') else None,
                str(tr.to_json())]
    if do == 'read':
        if t['reader'] == 'tree':
            p = world.cache.get('bobcat') or world.make('bobcat')
            rd = TreeReader(ccg_parser=p, mode=list(TreeReaderMode)[t['mode']])
            return rd.sentence2diagram(sentence(t['words']))
        return READERS[t['reader']].sentence2diagram(sentence(t['words']))
    if do == 'ansatz':
        f = world.get((t['which'], world.case['mixed']), t['own'])
        return f(world.diagrams[t['d'] % len(world.diagrams)])
    if do in ('eval', 'teval'):
        return evaluate(world, t)
    if do == 'subs':
        d = world.get((t['which'], False), t['own'])(
            world.diagrams[t['d'] % len(world.diagrams)])
        syms = sorted(d.free_symbols, key=str)
        vals = weights_for(syms, t['w'], None)
        return d.lambdify(*syms)(*vals) if syms else d
    if do in ('numpy', 'jit', 'qtorch', 'torch'):
        m = world.get(do, t['own'])
        src = world.tens['tensor'] if do == 'torch' else world.circuits()
        by = {}
        for k in t['ds']:
            d = src[k % len(src)]
            by.setdefault(repr(d.cod), []).append(d)
        # a model evaluates diagrams of one output type together
        return [m(ds) for _, ds in sorted(by.items())]
    d = world.diagrams[t['d'] % len(world.diagrams)]
    if do == 'clean':
        return world.get(t['which'], t['own'])(d)
    if do == 'rewrite':
        return world.get('rewriter', t['own'])(d)
    if do == 'user':
        return world.get('user', t['own'])(d)
    if do == 'json':
        return GDiagram.from_json(d.to_json())
    if do == 'normal':
        return [d.normal_form() if hasattr(d, 'normal_form') else d,
                d.dagger(), d.rotate(t['v'] - 1), d @ d]
    if do == 'text':
        return d.render_as_str() if hasattr(d, 'render_as_str') else repr(d)
    raise HarnessError(do)


class Program:
    def __init__(self, world, tasks):
        self.world, self.tasks = world, tasks

    def run(self):
        out = []
        for t in self.tasks:
            try:
                out.append(result(perform(self.world, t)))
            except HarnessError:
                raise
            except Exception as e:
                out.append(['error', type(e).__name__, str(e)[:200]])
            sched.touch('next')
        return out


def programs(world, case):
    return [Program(world, th['tasks']).run for th in case['threads']]


# ------------------------------------------------------------------ running
def one_after_other(case, focus=None, opcodes=False):
    fresh_process()
    world = World(case)
    s = sched.sequential(programs(world, case), focus=focus, opcodes=opcodes,
                         order=case['order'])
    return world, collect(s, 'one after the other')


def collect(s, how):
    for t in s.threads:
        if t.error is not None:
            if isinstance(t.error, (HarnessError, Violation)):
                raise t.error
            raise HarnessError(f'{how}: thread {t.n} raised '
                               f'{type(t.error).__name__}: {t.error}')
    return s


def neat():
    """No run may leave backends of tensornetwork selected for the next."""
    stack = tn.backend_contextmanager._default_backend_stack
    del stack.stack[:]


def run(case, ctx):
    if not case['threads']:
        return
    neat()
    world, s0 = one_after_other(case)
    before = world.snapshot()
    profile = sched.profile_of(s0)
    expect = [t.result for t in s0.threads]
    focus = None
    if case['focus'] is not None:
        files = sorted({f for p in profile.values() for f, _, _ in p
                        if not f.startswith('~')})
        if files:
            focus = [files[min(int(case['focus'] * len(files)),
                               len(files) - 1)]]
            profile = {t: {k: v for k, v in p.items()
                           if k[0].endswith(focus[0]) or k[0][0] == '~'}
                       for t, p in profile.items()}
    fresh_process()
    neat()
    world = World(case)
    if world.snapshot() != before:
        a, b = world.snapshot(), before
        diff = [k for k in b if a.get(k) != b[k]]
        raise Violation('altered', 'running the threads one after the other '
                        f'changed shared objects: {diff}')
    # jax holds a lock of its own while it traces a function, on which a
    # second thread that calls the same function waits
    jits = sum(any(t['do'] == 'jit' and not t['own'] for t in th['tasks'])
               for th in case['threads'])
    avoid = '/jax/_src/' if jits > 1 else None
    s = sched.concurrent(programs(world, case), case['schedule'], profile,
                         case['opcodes'], order=case['order'], focus=focus,
                         avoid=avoid)
    if s.deadlock:
        raise Violation('deadlock', 'threads wait for each other for ever')
    collect(s, 'interleaved')
    ctx.steps += s.total
    ctx.event(s.switches)
    if s.switches:
        ctx.nontrivial = True
        ctx.fault('thread_switch', len(s.switches))
        ctx.probe(f'theme_{case["theme"]}')
    if focus:
        ctx.probe('focused')
    ctx.state([[t['do'] for t in th['tasks']] for th in case['threads']],
              s.switches)
    compare(case, expect, [t.result for t in s.threads], 'interleaved with '
            'other threads', 'differs')
    after = world.snapshot()
    if after != before:
        diff = [k for k in before if after.get(k) != before[k]]
        raise Violation('altered', 'threads running at the same time changed '
                        f'shared objects: {diff}')
    # what the threads left behind must not change later answers
    neat_default = tn.backend_contextmanager.get_default_backend()
    if neat_default != 'numpy':
        raise Violation('left_behind', 'tensornetwork still uses the backend '
                        f'{neat_default} after all threads ended')
    again = [p() for p in programs(world, case)]
    compare(case, expect, again, 'run again after the threads ended', 'later')
    ctx.event([[r[0] for r in rs] for rs in expect])


def compare(case, expect, got, how, rule):
    for i, (es, gs) in enumerate(zip(expect, got)):
        for j, (e, g) in enumerate(zip(es, gs)):
            if e[0] == g[0] == 'error':
                if e[1] == g[1]:
                    continue
            elif same(e, g):
                continue
            t = case['threads'][i]['tasks'][j]
            raise Violation(
                rule, f'task {t["do"]} of thread {i}, {how}, gave {show(g)} '
                f'instead of {show(e)}')
