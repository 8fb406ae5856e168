"""P20: what one process stored means the same to another."""
import base64
import json
import os
import pickle

import numpy as np
import torch

from dst import core, parsers as DP, train as T, zygote
from dst.core import HarnessError, SimKill, Violation
from dst.props import p01, p15, p19

from lambeq import (CCGTree, CircuitAnsatz, NumpyModel,  # noqa: F401
                    PennyLaneModel, PytorchModel, PytorchQuantumModel,
                    Rewriter, TketModel, UnknownWordsRewriteRule)
from lambeq.backend.grammar import (Box as GBox, Diagram as GDiagram,
                                    Frame as GFrame, Spider as GSpider,
                                    Swap as GSwap, Ty as GTy, Word as GWord,
                                    grammar)
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode  # noqa: F401
from lambeq.training.checkpoint import Checkpoint
from lambeq.training.tn_path_optimizer import (
    CachedTnPathOptimizer, ordered_nodes_contractor)

ID = 'P20'
RUNS = {'quick': 600, 'thorough': 60000}
BLOCK = 25
RULE = ('A case is a chain of simulated processes with different hash seeds. '
        'The first one builds diagrams, circuits, tensors, trees and models, '
        'uses some of them, and stores them (pickle, JSON, checkpoint, path '
        'cache); each later one loads them, compares and mixes them with its '
        'own, and stores them again; or a training run whose process is '
        'killed and resumed by the next; non-trivial when something was '
        'handed over.')
STATE_MEASURE = '(what was handed over, how, used before, chain)'
REAL = ['pickling and JSON of diagrams, circuits, tensors, symbols, types '
        'and trees', 'Checkpoint', 'model classes',
        'CachedTnPathOptimizer', 'trainers', 'ansaetze, rewriters and '
        'evaluation', 'string hashing of the interpreter']
STUB = ['transformer encoders of the parsers', 'coreference resolver',
        'user-defined models of the training runs', 'disk and clock of the '
        'training runs']
ASSUMPTIONS = [
    'All processes run the same version of lambeq and of its dependencies.',
    'Numbers may differ by rounding.']
SHRINK_LISTS = {'items', 'specs', 'words', 'text', 'chain', 'kills'}
MINIMISE_S = 120
SEEDS = [0, 1, 2, 3, 4, 5]
POOL = None
KINDS = ['diagram', 'diagram', 'variant', 'variant', 'variant', 'circ', 'circ', 'circ14', 'disc', 'tens',
         'tens', 'bound', 'tree', 'oparse', 'text', 'symbols', 'types',
         'model', 'model', 'model', 'paths', 'tk', 'list', 'tool',
         'tool']
FOLLOW = ['ansatz', 'rewrite', 'dagger', 'normal', 'eval', 'mix', 'subs',
          'text', 'json', 'clean']
MODELS = {'numpy': NumpyModel, 'torchq': PytorchQuantumModel,
          'torch': PytorchModel, 'penny': PennyLaneModel}


def gen_item(r):
    k = r.choice(KINDS)
    t = {'do': k, 'd': r.randrange(3), 'used': r.random() < 0.5,
         'how': r.choice(['pickle', 'pickle', 'json', 'checkpoint']),
         'proto': r.choice([2, 4, 5]),
         'follow': [r.choice(FOLLOW) for _ in range(r.choice([1, 2, 3]))],
         'which': r.choice(['tensor', 'spider', 'mps']),
         'v': r.randrange(1 << 12), 'words': p15.gen_words(r)}
    if k == 'model':
        t['model'] = r.choice(['numpy'] * 3 + ['torch'] * 3
                              + ['torchq', 'penny'])
        t['jit'] = r.random() < 0.08
        t['ds'] = [r.randrange(3) for _ in range(r.choice([1, 2, 3]))]
    if k == 'text':
        t['circ'] = p19.gen_circ(r)
    return t


def gen(r, i, tier):
    if i % 5 == 4:
        case = p01.gen(r, i, tier)
        case['train'] = True
        case['again'] = False
        case['chain'] = [r.choice(SEEDS) for _ in
                         range(len(case['kills']) + 1)]
        return case
    base = p15.gen(r, i, tier)
    return {'specs': [p15.gen_sentence(r)
                      for _ in range(r.choice([1, 2, 3]))],
            'parser': base['parser'], 'mixed': base['mixed'],
            'symbols_used': base['symbols_used'],
            'items': [gen_item(r) for _ in range(r.choice([2, 3, 5, 8]))],
            'chain': [r.choice(SEEDS)] + [r.choice(SEEDS) for _ in
                                          range(r.choice([1, 1, 2, 3]))]}


def shrinks(case):
    if case.get('train'):
        yield from p01.shrinks(case)
        return
    yield from core.generic_shrinks(case, SHRINK_LISTS)


# ------------------------------------------------------------ the processes
def world_of(case):
    threads = [{'tasks': [{'do': 'eval', 'own': True}]}]
    return p15.World(dict(case, threads=threads))


def make(world, case, t):
    """The object of an item, as any process builds it."""
    k = t['do']
    n = t['d']

    def pick(xs):
        return xs[n % len(xs)]
    if k == 'diagram':
        return pick(world.diagrams)
    if k == 'variant':
        return variant(pick(world.diagrams), t['v'], world)
    if k in ('circ', 'circ14', 'disc'):
        return pick(getattr(world, k))
    if k == 'tens':
        return pick(world.tens[t['which']])
    if k == 'bound':
        c = pick(world.circ if t['v'] % 2 else world.tens[t['which']])
        syms = sorted(c.free_symbols, key=str)
        return c.lambdify(*syms)(*p15.weights_for(syms, t['v'] % 5, None))
    if k == 'tree':
        words = t['words'] if t['v'] % 4 == 0 else [
            DP.NOUNS[t['v'] % 5], DP.TRANS[t['v'] % 3], DP.NOUNS[t['v'] % 6]]
        return DP.make('bobcat', case['parser']).sentence2tree(
            p15.sentence(words))
    if k == 'oparse':
        return DP.make('oncilla', case['parser']).sentence2diagram(
            p15.sentence(t['words']))
    if k == 'text':
        return p19.text_to_circuit(case, t['circ'])
    if k == 'symbols':
        c = pick(world.circ if t['v'] % 2 else world.tens[t['which']])
        return sorted(c.free_symbols, key=str)
    if k == 'types':
        d = pick(world.diagrams)
        return [d.cod] + [b.cod for b in d.boxes] + [d.cod.l, d.cod.r]
    if k == 'list':
        return list(world.diagrams) + list(world.circ)
    if k == 'tool':
        return Tool.make(world, t)
    if k == 'tk':
        c = pick(world.circ)
        syms = sorted(c.free_symbols, key=str)
        return c.lambdify(*syms)(*p15.weights_for(syms, 1, None)).to_tk()
    raise HarnessError(k)


def variant(d, v, world):
    """Diagrams with rotated, daggered, swapped, spider and other boxes."""
    for k in (v % 8, v // 8 % 8, v // 64 % 8):
        if len(d) > 40:
            break
        if k == 0:
            d = d.dagger()
        elif k == 1:
            d = d.l
        elif k == 2:
            d = d.r
        elif k == 3:
            d = d @ d
        elif k == 4:
            d = world.make('rewriter')(d)
        elif k == 5:
            d = world.make('user')(d)
        elif k == 6:
            d = d @ GSpider(GTy('n'), 1 + v % 3, v // 2 % 3, ) @ GFrame(
                'f', GTy('s'), GTy('n') @ GTy('s'),
                components=[d, GBox('b', GTy('n'), GTy('s')),
                            GWord('w', GTy('n')),
                            GBox('c', GTy('n'), GTy('s')).dagger(),
                            GSwap(GTy('n'), GTy('s'))][:1 + v % 5])
        else:
            d = d >> d.dagger()
    return d


def parts(x, depth=3):
    """The values a value is made of, in a fixed order."""
    out = []
    for a in ('dom', 'cod', 'boxes', 'layers', 'components', 'children',
              'box', 'biclosed_type', 'left', 'right', 'typ', 'objects'):
        try:
            y = getattr(x, a, None)
        except ValueError:            # a tree without such a child
            continue
        if y is None or callable(y) and not hasattr(y, 'cod'):
            continue
        for z in (y if isinstance(y, (list, tuple)) else [y]):
            if type(z).__module__.startswith('lambeq'):
                out.append((a, z))
                if depth:
                    out += [(a + '.' + b, w) for b, w in parts(z, depth - 1)]
    syms = getattr(x, 'free_symbols', ())
    if not callable(syms):
        out += [('free_symbols', y) for y in sorted(syms, key=str)]
    return out


def use(x):
    """What fills caches, if there are any."""
    if isinstance(x, list):
        for y in x:
            use(y)
        return
    for _, y in parts(x):
        try:
            hash(y), repr(y), str(y), y == y
        except Exception:
            pass
    for go in (hash, repr, lambda x: x.free_symbols, lambda x: x.eval(),
               lambda x: x.dagger(), lambda x: x.to_tn(),
               lambda x: x.lambdify(*x.free_symbols),
               lambda x: x == x, lambda x: x.deriv(),
               lambda x: x.to_diagram()):
        try:
            go(x)
        except Exception:
            pass


def store(x, t, path):
    if t['do'] == 'tool':
        t = dict(t, how='pickle')
    if t['how'] == 'json' and isinstance(x, (CCGTree, GDiagram)) \
            and not hasattr(x, 'eval'):
        data = ['json', 'CCGTree' if isinstance(x, CCGTree) else 'Diagram',
                x.to_json()]
        with open(path, 'w') as f:
            f.write(json.dumps(data))
        return 'json'
    if t['how'] == 'checkpoint':
        ck = Checkpoint()
        ck['object'] = x
        ck.to_file(path)
        return 'checkpoint'
    with open(path, 'wb') as f:
        pickle.dump(x, f, protocol=t['proto'])
    return 'pickle'


def load(how, path):
    if how == 'json':
        with open(path) as f:
            text = f.read()
        _, kind, data = json.loads(text)
        cls = {'CCGTree': CCGTree, 'Diagram': GDiagram}[kind]
        x = cls.from_json(data)
        if data != json.loads(text)[2]:
            raise Wrong(f'loading a {kind} alters the data it was loaded from')
        others = [cls.from_json(json.dumps(data))]
        if kind == 'Diagram':
            others.append(grammar.from_json(data))
        if any(y != x for y in others):
            raise Wrong(f'the same stored {kind} loads differently')
        return x
    if how == 'checkpoint':
        return Checkpoint.from_file(path)['object']
    with open(path, 'rb') as f:
        return pickle.load(f)


class Tool:
    """Ansaetze, rewriters and rules, as far as they can be pickled."""

    @staticmethod
    def make(world, t):
        v = t['v'] % 6
        if v == 0:
            x = UnknownWordsRewriteRule.from_diagrams(
                world.diagrams[:1 + t['d']], min_freq=1 + t['v'] % 2)
        elif v == 1:
            x = UnknownWordsRewriteRule(
                {GWord('Bob', GTy('n')), 'Ann', 'the'})
        elif v == 2:
            x = Rewriter(['auxiliary', 'determiner', 'curry'])
        elif v == 3:
            x = world.make(('cups', 'swaps', 'unify')[t['d'] % 3])
        else:
            x = p15.ANSATZ['iqp' if v == 4 else 'sim14'](bool(t['d'] % 2))
        if t['used']:
            for d in world.diagrams:
                try:
                    Tool.apply(x, d)
                except Exception:
                    pass
        pickle.dumps(x)               # or it is not a case
        return x

    @staticmethod
    def apply(x, d):
        return (Rewriter([x]) if isinstance(x, UnknownWordsRewriteRule)
                else x)(d)


class Wrong(Exception):
    pass


def attempt(f):
    p19.seed_all(5)
    try:
        return p19.jsonable(p15.result(f()))
    except HarnessError:
        raise
    except Exception as e:
        return ['error', type(e).__name__]


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def compare(got, own, t, world, case):
    """A loaded object against the one this process built."""
    if isinstance(own, list):
        if len(got) != len(own):
            raise Wrong(f'{len(got)} objects instead of {len(own)}')
        for a, b in zip(got, own):
            compare(a, b, t, world, case)
        return
    if t['do'] == 'tool':
        for d in world.diagrams:
            want = attempt(lambda: Tool.apply(own, d))
            have = attempt(lambda: Tool.apply(got, d))
            if not p19.near(want, have):
                raise Wrong(f'{type(own).__name__}: does something else: '
                            + p19.first_diff(have, want))
        return
    name = f'{type(own).__name__} {str(own)[:60]!r}'
    if type(got) is not type(own):
        raise Wrong(f'{name}: loaded as {type(got).__name__}')
    if repr(got) != repr(own):
        raise Wrong(f'{name}: reads {repr(got)[:80]}')
    if not (got == own and own == got) or got != own:
        raise Wrong(f'{name}: differs from the one built here')
    if hashable(own):
        if hash(got) != hash(own) or {own: 1}.get(got) != 1 \
                or len({got, own}) != 1:
            raise Wrong(f'{name}: not found among equal ones in a dictionary')
    mine, theirs = parts(own), parts(got)
    if [a for a, _ in mine] != [a for a, _ in theirs]:
        raise Wrong(f'{name}: is made of other parts')
    for (a, y), (_, z) in zip(mine, theirs):
        if not (y == z and z == y) or y != z:
            raise Wrong(f'{name}: its {a} {str(y)[:40]!r} differs')
        if hashable(y) and (hash(z) != hash(y) or {y: 1}.get(z) != 1
                            or {z: 1}.get(y) != 1):
            raise Wrong(f'{name}: its {a} {str(y)[:40]!r} is not found among '
                        'equal ones in a dictionary')
    if hasattr(own, 'free_symbols') and not callable(own.free_symbols):
        a, b = set(got.free_symbols), set(own.free_symbols)
        if a != b or a - b or any(s not in a for s in b):
            raise Wrong(f'{name}: its symbols are not those of its copy')
    for f in t['follow']:
        want = attempt(lambda: follow(own, own, f, t, world))
        have = attempt(lambda: follow(got, own, f, t, world))
        if not p19.near(want, have):
            raise Wrong(f'{name}: {f} gives another result: '
                        + p19.first_diff(have, want))


def follow(x, own, f, t, world):
    plain = isinstance(x, GDiagram) and not hasattr(x, 'eval')
    if isinstance(x, CCGTree):
        x = x.to_diagram(planar=bool(t['v'] % 2))
        own = own.to_diagram(planar=bool(t['v'] % 2))
        plain = True
    if f == 'ansatz' and plain:
        return p15.ANSATZ[t['which'] if t['v'] % 2 else 'iqp'](
            None if t['v'] % 2 else False)(x)
    if f == 'rewrite' and plain:
        return world.make('rewriter')(x)
    if f == 'clean' and plain:
        return world.make('cups' if t['v'] % 2 else 'swaps')(x)
    if f == 'mix' and hasattr(x, 'dagger'):
        # built partly here, partly there
        both = (x >> own.dagger()) @ own
        if plain:
            return p15.ANSATZ['iqp'](False)(both)
        syms = sorted(own.free_symbols, key=str)
        c = (x @ own)
        c = c.lambdify(*syms)(*p15.weights_for(syms, 2, None)) if syms else c
        return [both, c.eval()]
    if f == 'subs' and hasattr(x, 'free_symbols'):
        # symbols from here, diagram from there
        syms = sorted(own.free_symbols, key=str)
        return x.lambdify(*syms)(*p15.weights_for(syms, 3, None))
    if f == 'eval' and hasattr(x, 'eval'):
        syms = sorted(own.free_symbols, key=str)
        c = x.lambdify(*syms)(*p15.weights_for(syms, 1, None)) if syms else x
        return c.eval()
    if f == 'dagger' and hasattr(x, 'dagger'):
        return x.dagger()
    if f == 'normal' and plain:
        return x.normal_form()
    if f == 'json' and plain:
        return json.dumps(x.to_json())
    return repr(x)


# ------------------------------------------------------------------- models
def circuits(world, t, src=None):
    src = src or (world.tens['tensor'] if t['model'] == 'torch'
                  else world.circ)
    ds = [src[k % len(src)] for k in t['ds']]
    out = []
    for d in ds:                      # one output type, each once
        if d.cod == ds[0].cod and d not in out:
            out.append(d)
    return out


def predictions(m, ds):
    if isinstance(m, torch.nn.Module):
        m.eval()
        with torch.no_grad():
            y = m(ds)
    else:
        y = m(ds)
    return np.asarray(p15.plain(y), dtype=float).ravel().tolist()


def model_first(world, t, path):
    ds = circuits(world, t)
    kw = {'use_jit': True} if t['model'] == 'numpy' and t['jit'] else {}
    m = MODELS[t['model']].from_diagrams(ds, **kw)
    p19.seed_all(t['v'])
    m.initialise_weights()
    y = predictions(m, ds) if t['used'] else None
    m.save(path)
    with open(path + '.diagrams', 'wb') as f:
        pickle.dump(ds, f)
    return y if y is not None else predictions(m, ds)


def model_next(world, t, path, want):
    with open(path + '.diagrams', 'rb') as f:
        there = pickle.load(f)
    here = circuits(world, t)
    kw = {'use_jit': True} if t['model'] == 'numpy' and t['jit'] else {}
    cls = MODELS[t['model']]
    if t['v'] % 2:
        m = cls.from_checkpoint(path, **kw)
    else:
        m = cls.from_diagrams(here if t['v'] % 4 else there, **kw)
        m.initialise_weights()
        m.load(path)
    for ds, whose in ((here, 'its own'), (there, 'the stored')):
        y = predictions(m, ds)
        if not p19.near(y, want):
            raise Wrong(f'the {t["model"]} model predicts {y[:4]} for '
                        f'{whose} diagrams instead of {want[:4]}')
    fresh = cls.from_diagrams(here if t['v'] % 3 else there, **kw)
    if [str(s) for s in m.symbols] != [str(s) for s in fresh.symbols] \
            or list(m.symbols) != list(fresh.symbols):
        raise Wrong(f'the {t["model"]} model has symbols {m.symbols} instead '
                    f'of {fresh.symbols}')
    p19.seed_all(t['v'] + 1)
    m.initialise_weights()
    y = predictions(m, here)
    m.save(path)
    with open(path + '.diagrams', 'wb') as f:
        pickle.dump(here if t['v'] % 2 else there, f)
    return y


def paths_run(world, t, path, want):
    """Evaluates with a path cache that earlier processes filled."""
    opt = CachedTnPathOptimizer(save_file=path)
    before = len(opt.cached_paths)
    out = []
    for d in [world.circ[0], world.tens[t['which']][0], world.circ[-1]]:
        syms = sorted(d.free_symbols, key=str)
        c = d.lambdify(*syms)(*p15.weights_for(syms, t['v'] % 3, None)) \
            if syms else d
        y = c.eval(contractor=lambda n, e: ordered_nodes_contractor(
            n, opt, e))
        out += [np.abs(np.asarray(y)).ravel().tolist()]
    if want is not None:
        if not p19.near(out, want):
            raise Wrong(f'evaluation with the path cache gives {out} instead '
                        f'of {want}')
        if len(opt.cached_paths) != before:
            raise Wrong('the path of a network in the path cache is searched '
                        f'again: {before} entries, then '
                        f'{len(opt.cached_paths)}')
    return out


def stage(arg):
    """One process of a chain."""
    case, root, k = arg['case'], arg['root'], arg['k']
    p15.fresh_process()
    p15.neat()
    out = []
    world = world_of(case)
    for j, t in enumerate(case['items']):
        path = os.path.join(root, f'item{j}')
        before = arg['before'][j] if k else None
        if k and before[0] != 'ok':
            out.append(before)
            continue
        try:
            if t['do'] == 'model':
                y = (model_first(world, t, path) if not k
                     else model_next(world, t, path, before[1]))
                out.append(['ok', y])
            elif t['do'] == 'paths':
                out.append(['ok', paths_run(world, t, path,
                                            before[1] if k else None)])
            else:
                own = make(world, case, t)
                if k:
                    got = load(before[1], path)
                    compare(got, own, t, world, case)
                    x = got if t['v'] % 2 else own
                else:
                    x = own
                if t['used']:
                    use(x)
                out.append(['ok', store(x, t, path)])
        except Wrong as e:
            out.append(['wrong', str(e)])
        except HarnessError:
            raise
        except Exception as e:
            out.append(['error' if not k else 'fails', type(e).__name__,
                        str(e)[:300]])
    return out


def life(arg):
    """One process of a training run."""
    case, k = arg['case'], arg['k']
    sim = T.Sim(core.Ctx())
    fired = []
    if arg['kill'] is not None:
        sim.action = p01.killer(sim, int(arg['kill']['at'] * arg['total']),
                                arg['kill']['frac'], fired)
    p15.fresh_process()
    try:
        tr = p01.one_process(case['cfg'], arg['root'], sim, arg['resume'],
                             sim.ctx, k)
    except SimKill:
        return ['killed', fired[-1] if fired else '?', sim.n]
    except Exception as e:
        return ['fails', type(e).__name__, str(e)[:300]]
    return ['finished', base64.b64encode(pickle.dumps(
        T.outcome(tr))).decode(), sim.n]


# ------------------------------------------------------------------ running
def warm():
    p19.warm()


def prepare():
    global POOL
    if POOL is None or POOL.pid != os.getpid():
        POOL = zygote.Pool('dst.props.p20', SEEDS)


def run(case, ctx):
    if case.get('train'):
        return run_training(case, ctx)
    before = None
    ctx.nontrivial = bool(case['items'])
    with T.Scratch() as root:
        for k, h in enumerate(case['chain']):
            out = POOL.ask(h, 'stage', {'case': case, 'root': root, 'k': k,
                                        'before': before})()
            ctx.steps += len(out)
            ctx.event(k, h, [x[:2] if x[0] != 'ok' or isinstance(x[1], str)
                             else 'ok' for x in out])
            if k:
                ctx.fault('new_process')
            for t, x in zip(case['items'], out):
                if x[0] == 'wrong':
                    raise Violation('changed_in_transit', f'process {k} (hash '
                                    f'seed {h}), {t["do"]}: {x[1]}')
                if x[0] == 'fails':
                    raise Violation('unusable', f'process {k} (hash seed {h})'
                                    f' cannot use the stored {t["do"]}: '
                                    f'{x[1]}: {x[2]}')
                if not k:
                    ctx.probe(f'{t["do"]}_{x[0]}')
            before = out
        for t, x in zip(case['items'], before):
            ctx.state(t['do'], t['used'], x[1] if isinstance(x[1], str)
                      else t.get('model'), len(case['chain']),
                      len(set(case['chain'])))


def run_training(case, ctx):
    cfg, chain = case['cfg'], case['chain']
    tol = p01.tol_of(cfg)
    with T.Scratch() as ref_root, T.Scratch() as root:
        ref = POOL.ask(0, 'life', {'case': case, 'k': 0, 'root': ref_root,
                                   'kill': None, 'resume': False})()
        if ref[0] != 'finished':
            raise HarnessError(f'uninterrupted run: {ref}')
        ck = os.path.join(root, 'run', 'model.lt')
        kills = list(case['kills'])
        k = 0
        while True:
            k += 1
            resume = os.path.exists(ck)
            h = chain[(k - 1) % len(chain)]
            got = POOL.ask(h, 'life', {
                'case': case, 'k': k, 'root': root, 'total': ref[2],
                'kill': kills.pop(0) if kills else None,
                'resume': resume})()
            ctx.steps += 1
            ctx.event(k, h, got[0], resume)
            ctx.fault('new_process')
            if got[0] == 'killed':
                ctx.fault('kill_at_' + got[1])
            if got[0] == 'fails':
                raise Violation('resumed_run_fails', f'process {k} (hash seed '
                                f'{h}, resume={resume}): {got[1]}: {got[2]}')
            ctx.nontrivial |= resume
            ctx.state('train', cfg['model'], cfg['opt'], resume, got[0])
            if resume:
                ctx.probe('train_resumed')
            if got[0] == 'finished':
                break
        d = T.diff(pickle.loads(base64.b64decode(got[1])),
                   pickle.loads(base64.b64decode(ref[1])), tol)
        if d:
            raise Violation('resumed_run_differs', f'{cfg["model"]}/'
                            f'{cfg["opt"]} over processes with hash seeds '
                            f'{chain}: {d}')
