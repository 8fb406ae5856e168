"""P14: the command line reports success only when its output is complete."""
import io
import json
import os
import pickle
import re
import sys

from dst import parsers as DP
from dst.core import Guard, HarnessError, SimKill, Violation, digest
from dst.seams import SimDisk, bypass, real
from dst.train import Scratch

import lambeq
import lambeq.cli as cli
from lambeq import (AtomicType, BobcatParser, CCGTree, IQPAnsatz, MPSAnsatz,
                    OncillaParser, RemoveSwapsRewriter, Rewriter, SpiderAnsatz,
                    TensorAnsatz, TreeReader, cups_reader, spiders_reader,
                    stairs_reader)
from lambeq.backend.tensor import Dim

ID = 'P14'
RUNS = {'quick': 3000, 'thorough': 200000}
IMPORTS = ['PIL.Image', 'matplotlib.pyplot', 'matplotlib.backends.backend_agg', 'PIL.PngImagePlugin']
RULE = ('A case is a history of command lines over one directory (modes, '
        'parsers, readers, ansaetze, output formats, stored and loaded '
        'arguments), each with disk errors, short transfers, a full disk or a '
        'kill at chosen steps, failing standard output and failing sentences; '
        'failed runs are repeated. Non-trivial when a fault fired or stored '
        'arguments were loaded.')
STATE_MEASURE = ('(kinds of runs, options, where and how each failed)')
REAL = ['lambeq.cli.main and its pipeline', 'parsers, readers, rewriters and '
        'ansaetze', 'SpacyTokeniser', 'drawing (matplotlib, Pillow)', 'yaml']
STUB = ['transformer encoders of the parsers', 'spaCy model (blank English '
        'with a sentencizer)', 'disk', 'standard input and output']
ASSUMPTIONS = [
    'A run succeeds when main returns or exits with status 0; power loss '
    'after a successful run is outside the property.',
    'Stored arguments are trusted when the run that stored them succeeded.']
SHRINK_LISTS = {'runs', 'lines', 'plan', 'reads'}

N, S = AtomicType.NOUN, AtomicType.SENTENCE
SPEC = {'salt': 3, 'empties': 0, 'max_len': 60, 'eisner': True, 'beam': 4,
        'missing': -20.0, 'root_cats': None,
        'tagger': {'batch_size': 2, 'tag_top_k': 2,
                   'tag_prob_threshold': 0.01,
                   'tag_prob_threshold_strategy': 'relative',
                   'span_top_k': 2, 'span_prob_threshold': 0.1,
                   'span_prob_threshold_strategy': 'relative'}}
CURRENT = {}
BLANK = None
IMAGES = ['png', 'jpg', 'svg', 'pdf', 'tif']


class CliBobcat(DP.StubbedBobcat):
    def __init__(self, *args, root_cats=None, **kw):
        spec = dict(SPEC, salt=CURRENT['salt'], root_cats=root_cats)
        kw.pop('model_name_or_path', None)
        super().__init__(DP.scratch(), root_cats=root_cats,
                         verbose='suppress', spec=spec)
        self.tagger.model.faults.ctx = CURRENT['ctx']
        self.tagger.model.faults.plan = dict(CURRENT['model'])


class CliOncilla(DP.StubbedOncilla):
    def __init__(self, *args, **kw):
        DP.StubbedOncilla.SPEC = dict(SPEC, salt=CURRENT['salt'])
        super().__init__(DP.scratch(), verbose='suppress')
        self.model.faults.ctx = CURRENT['ctx']
        self.model.faults.plan = dict(CURRENT['model'])


# ------------------------------------------------------------- generation
def gen_line(r):
    x = r.random()
    if x < 0.06:
        return [r.choice(['untaggable', 'nocat', 'boom', 'Alice'])] * 2
    if x < 0.1:
        return ['Alice', 'Alice', 'sees']
    if x < 0.12:
        return []
    out = [r.choice(DP.NOUNS), r.choice(DP.INTR)]
    if r.random() < 0.4:
        out = [r.choice(DP.NOUNS), r.choice(DP.TRANS), r.choice(DP.NOUNS)]
    if r.random() < 0.3:
        out[:0] = [r.choice(DP.ADJ)]
    return out


def gen_run(r, k):
    x = r.random()
    run = {'in': r.choice(['file', 'file', 'file', 'arg', 'stdin']),
           'lines': [gen_line(r) for _ in range(r.choice([1, 1, 2, 2, 3, 8]))],
           'mode': r.choice(['string-diagram', 'string-diagram', 'pregroups',
                             'ccg', 'ccg', None]),
           'store': r.random() < 0.4, 'crlf': r.random() < 0.1,
           'tok': r.random() < 0.12, 'split': r.random() < 0.08,
           'name': r.choice(['out', 'out', 'other'])}
    if run['mode'] == 'ccg':
        run['fmt'] = r.choice(['json', 'json', 'text-ascii', 'text-unicode',
                               None, 'pickle'])
        run['how'] = r.choice([None, None, 'bobcat', 'cats'])
    else:
        run['fmt'] = r.choice(['text-ascii', 'text-unicode', None, 'pickle',
                               'pickle', 'pickle', 'image'
                               if r.random() < 0.4 else 'pickle', 'json'
                               if r.random() < 0.1 else 'pickle'])
        run['how'] = r.choice([None, 'bobcat', 'oncilla', 'cats', 'r:cups',
                               'r:spiders', 'r:stairs', 'r:tree'])
        if run['fmt'] in ('pickle', 'image'):
            run['ansatz'] = r.choice([None, None, 'iqp', 'tensor', 'spider',
                                      'mps'])
            run['rules'] = r.choice([None, None, ['determiner'],
                                     ['auxiliary', 'curry']])
            run['dims'] = [r.choice([1, 2]), r.choice([1, 2])]
        elif run['how'] in ('r:spiders', 'r:stairs', 'r:tree'):
            run['how'] = 'r:cups'
        if run['fmt'] == 'image':
            run['ansatz'] = run['rules'] = None
            run['lines'] = run['lines'][:2]
            if r.random() < 0.1:
                run['lines'] = [[r.choice(DP.NOUNS), r.choice(DP.INTR)]
                                for _ in range(r.choice([9, 10, 11]))]
            run['itype'] = r.choice(IMAGES + [None, 'png', 'png'])
            run['dir'] = len(run['lines']) > 1 or r.random() < 0.3
            run['opts'] = r.random() < 0.3
    if run['in'] == 'arg':
        run['lines'] = run['lines'][:1]
    run['cats'] = r.choice([['S[dcl]', 'NP'], ['S[dcl]', 'NP'], ['NP', 'N']])
    run['to_file'] = (run['fmt'] in ('json', 'pickle', 'image')
                      or r.random() < 0.6)
    return run


def gen_faults(r):
    f = {'plan': [], 'reads': []}
    if r.random() < 0.2:
        return f
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        if x < 0.5:
            f['plan'].append([r.choice([0, 0, 0, 1, 1, 2, 2, 3, 4]),
                              r.choice(['enospc', 'enospc_sticky', 'eio',
                                        'short', 'short', 'crash', 'torn']),
                              round(r.random(), 2)])
        elif x < 0.7:
            f['reads'].append([r.choice([0, 0, 1, 1, 2, 3]),
                               r.choice(['eio', 'short', 'open_eio',
                                         'open_eacces'])])
        elif x < 0.8:
            f['out'] = [r.choice([0, 0, 1, 2]),
                        r.choice(['pipe', 'full', 'io'])]
        elif x < 0.9:
            f['model'] = [r.choice([0, 0, 1, 2]),
                          r.choice(['RuntimeError', 'MemoryError',
                                    'KeyboardInterrupt', 'ValueError'])]
        else:
            f['stdin'] = r.choice(['eof', 'io'])
    return f


def gen(r, i, tier):
    runs = []
    for k in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if runs and x < 0.5:
            runs.append({'load': r.randrange(len(runs)),
                         'override': r.random() < 0.25,
                         'store': r.random() < 0.2})
        else:
            runs.append(gen_run(r, k))
    if 'load' not in runs[-1] and r.random() < 0.45:
        runs[-1]['store'] = True
        runs.append({'load': len(runs) - 1, 'override': r.random() < 0.2,
                     'store': False})
    for run in runs:
        run['faults'] = gen_faults(r)
        if run.get('fmt') == 'image' and r.random() < 0.4:
            run['faults'] = {'plan': [[r.randrange(6), r.choice(
                ['enospc', 'enospc_sticky', 'eio', 'short', 'crash',
                 'torn']), round(r.random(), 2)]], 'reads': []}
    return {'runs': runs, 'salt': r.randrange(40)}


# ------------------------------------------------------------- seams
class Out(io.StringIO):
    """Standard output which fails at a chosen write."""

    def __init__(self, fault, ctx):
        super().__init__()
        self.fault = fault
        self.n = 0
        self.ctx = ctx
        self.fired = False

    def write(self, s):
        if self.fault is not None and self.n >= self.fault[0]:
            self.fired = True
            self.ctx.fault('stdout_' + self.fault[1])
            if self.fault[1] == 'pipe':
                raise BrokenPipeError(32, 'Broken pipe')
            raise OSError(*{'full': (28, 'No space left on device'),
                            'io': (5, 'Input/output error')}[self.fault[1]])
        self.n += 1
        return super().write(s)


class In(io.StringIO):
    def __init__(self, text, fault, ctx):
        super().__init__('' if fault == 'eof' else text)
        self.fault, self.ctx, self.fired = fault, ctx, False

    def readline(self, *a):
        if self.fault is not None:
            self.fired = True
            self.ctx.fault('stdin_' + self.fault)
            if self.fault == 'io':
                raise OSError(5, 'Input/output error')
        return super().readline(*a)


class patched:
    """Parsers over stub networks wherever the command line may find them."""

    def __enter__(self):
        self.undo = []
        pairs = [(BobcatParser, CliBobcat), (OncillaParser, CliOncilla)]

        def swap(ns, get):
            for k, v in list(ns.items()):
                for old, new in pairs:
                    if v is old:
                        self.undo.append((get, k, old))
                        get(k, new)
                init = getattr(v, '__init__', None)
                defs = getattr(init, '__defaults__', None)
                if isinstance(v, type) and defs and any(
                        d is old for d in defs for old, _ in pairs):
                    m = dict(pairs)
                    self.undo.append((lambda k, v, f=init: setattr(f, k, v),
                                      '__defaults__', defs))
                    init.__defaults__ = tuple(
                        m.get(d, d) if isinstance(d, type) else d
                        for d in defs)
                if isinstance(v, dict) and any(
                        x is old for x in v.values() for old, _ in pairs):
                    swap(v, v.__setitem__)
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] == 'lambeq' and mod is not None:
                swap(vars(mod), lambda k, v, m=mod: setattr(m, k, v))
        import spacy
        self.load = spacy.load
        self.undo.append((lambda k, v: setattr(spacy, k, v), 'load',
                          spacy.load))
        global BLANK
        if BLANK is None:
            BLANK = spacy.blank('en')
        spacy.load = lambda *a, **kw: BLANK
        import logging
        logging.disable(logging.CRITICAL)

    def __exit__(self, *exc):
        for put, k, old in reversed(self.undo):
            put(k, old)
        import logging
        logging.disable(logging.NOTSET)
        return False


# ------------------------------------------------------------- the oracle
def text_of(run):
    nl = '\r\n' if run['crlf'] else '\n'
    return nl.join(' '.join(w) for w in run['lines'])


def pipeline(run, salt):
    """The same pipeline through the library, without faults.  Returns the
    list of diagrams or trees, or None when the library itself fails."""
    from lambeq import SpacyTokeniser
    CURRENT.update(salt=salt, model={}, ctx=None)
    text = text_of(run).replace('\r\n', '\n')
    if run['in'] == 'stdin':
        text = text.split('\n')[0]
    text = text.strip()
    if run['in'] == 'arg':
        text = ' '.join(text.split('\n'))
    try:
        tok = SpacyTokeniser() if run['tok'] or run['split'] else None
        sents = tok.split_sentences(text) if run['split'] else text.split('\n')
        if run['tok']:
            sents = tok.tokenise_sentences(sents)
        how = run['how'] or ''
        kw = {'tokenised': run['tok']}
        if how.startswith('r:'):
            reader = {'cups': cups_reader, 'spiders': spiders_reader,
                      'stairs': stairs_reader, 'tree': None}[how[2:]]
            if reader is None:
                reader = TreeReader(ccg_parser=CliBobcat())
            ds = reader.sentences2diagrams(sents, **kw)
        else:
            if how == 'oncilla':
                p = CliOncilla()
            else:
                p = CliBobcat(root_cats=run['cats'] if how == 'cats'
                              else None)
            if run['mode'] == 'ccg':
                return [t.without_trivial_unary_rules()
                        for t in p.sentences2trees(sents, **kw)]
            ds = p.sentences2diagrams(sents, **kw)
            if run['mode'] == 'pregroups':
                swaps = RemoveSwapsRewriter()
                ds = [swaps(d.pregroup_normal_form()) for d in ds]
        if run.get('rules'):
            rw = Rewriter(run['rules'])
            ds = [rw(d).normal_form() for d in ds]
        if run.get('ansatz'):
            a, b = run['dims']
            make = {'iqp': lambda: IQPAnsatz({N: a, S: b}, n_layers=1),
                    'tensor': lambda: TensorAnsatz({N: Dim(a), S: Dim(b)}),
                    'spider': lambda: SpiderAnsatz({N: Dim(a), S: Dim(b)},
                                                   max_order=3),
                    'mps': lambda: MPSAnsatz({N: Dim(a), S: Dim(b)},
                                             bond_dim=2)}[run['ansatz']]
            ansatz = make()
            ds = [ansatz(d) for d in ds]
        return ds
    except Exception:
        return None


def arguments(run, root, args_file):
    """The command line and where its output goes."""
    av, dest = ['lambeq'], None
    if run['in'] == 'arg':
        text = ' '.join(text_of(run).split())
        if text:
            av.append(text)
    elif run['in'] == 'file':
        av += ['-i', os.path.join(root, 'in.txt')]
    if run['mode'] is not None:
        av += ['-m', run['mode']]
    if run['fmt'] is not None:
        av += ['-f', run['fmt']]
    how = run['how']
    if how == 'cats':
        av += ['-c', *run['cats']]
    elif how and how.startswith('r:'):
        av += ['-r', how[2:]]
    elif how:
        av += ['-p', how]
    if run['tok']:
        av.append('-t')
    if run['split']:
        av.append('-s')
    if run.get('rules'):
        av += ['-w', *run['rules']]
    if run.get('ansatz'):
        av += ['-a', run['ansatz'], '-n', f'dim_n={run["dims"][0]}',
               f'dim_s={run["dims"][1]}', 'n_layers=1', 'bond_dim=2',
               'max_order=3']
    if run['to_file']:
        name = os.path.join(root, run['name'])
        if run['fmt'] == 'image':
            it = run['itype']
            if run['dir']:
                dest = name + '_dir'
                av += ['-d', dest]
                if it:
                    av += ['-g', it]
            else:
                dest = f'{name}.{it or "png"}'
                av += ['-o', dest]
            if run['opts']:
                av += ['-u', 'fontsize=9', 'fig_width=3', 'fig_height=2']
        else:
            dest = name
            av += ['-o', dest]
    if run['store']:
        av += ['-y', args_file]
    return av, dest


def expected_text(run, objs):
    ascii_ = run['fmt'] == 'text-ascii'
    if run['mode'] == 'ccg':
        return '\n'.join(t.deriv(use_ascii=ascii_) for t in objs)
    out = []
    for d in objs:
        if not d.is_pregroup:
            d = d.pregroup_normal_form()
        if not d.is_pregroup:
            return None
        out.append(d.render_as_str(use_ascii=ascii_))
    return '\n'.join(out)


def show(obj):
    if isinstance(obj, CCGTree):
        return json.dumps(obj.to_json(), sort_keys=True, default=str)
    return [repr(obj.dom), repr(obj.cod), [
        (str(b), repr(b.dom), repr(b.cod), o, repr(getattr(b, 'data', None)),
         getattr(b, 'z', None)) for b, o in zip(obj.boxes, obj.offsets)]]


def judge_output(run, dest, out, objs, root):
    fmt = run['fmt'] or 'text-unicode'
    if objs is None:
        raise Violation('success_without_output', 'the run ended without an '
                        'error although a sentence cannot be parsed')
    if fmt in ('text-ascii', 'text-unicode'):
        want = expected_text(run, objs)
        if want is None:
            raise Violation('success_without_output', 'the run ended without '
                            'an error for diagrams that cannot be rendered')
        if dest is None:
            got = out.getvalue()
            if got.startswith('Text: ') and (
                    run['in'] == 'stdin' or not text_of(run).strip()):
                got = got[6:]
            got = got.rstrip('\n')
            want = want.rstrip('\n')
        else:
            got = read_text(dest)
        if got != want:
            raise Violation('incomplete_output', f'{fmt} output has '
                            f'{len(got)} characters {got[-60:]!r} instead of '
                            f'{len(want)} {want[-60:]!r}')
        return
    if fmt == 'image':
        return judge_images(run, dest, objs, root)
    if not os.path.exists(dest):
        raise Violation('success_without_output', 'the run ended without an '
                        'error but its output file does not exist')
    with Guard('incomplete_output', f'reading the {fmt} output back'):
        if fmt == 'pickle':
            with real.open(dest, 'rb') as f:
                got = pickle.load(f)
                if f.read(1):
                    raise Violation('incomplete_output', 'bytes of an older '
                                    'output follow the new output')
        elif run['mode'] == 'ccg':
            with real.open(dest, encoding='utf-8') as f:
                got = [CCGTree.from_json(t) for t in json.load(f)]
        else:
            raise Violation('success_without_output', 'a run that cannot '
                            'write JSON diagrams ended without an error')
    got, want = [show(x) for x in got], [show(x) for x in objs]
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        raise Violation('incomplete_output', f'the output holds {len(got)} '
                        f'objects instead of {len(want)}, the first '
                        f'difference is at {k}')


def read_text(path):
    if not os.path.exists(path):
        raise Violation('success_without_output', 'the run ended without an '
                        'error but its output file does not exist')
    with real.open(path, 'rb') as f:
        raw = f.read()
    try:
        return raw.decode('utf-8').replace('\r\n', '\n')
    except UnicodeDecodeError as e:
        raise Violation('incomplete_output', f'text output: {e}') from e


TAIL = {'svg': b'</svg>', 'pdf': b'%%EOF'}


def judge_images(run, dest, objs, root):
    from PIL import Image
    ext = run['itype'] or 'png'
    n = len(objs)
    files = ([os.path.join(dest, f'diagram_{i:0{len(str(n))}}.{ext}')
              for i in range(1, n + 1)] if run['dir'] else [dest])
    if not run['dir'] and n != 1:
        raise Violation('success_without_output', f'{n} diagrams were written '
                        'to one image')
    for f, d in zip(files, objs):
        if not os.path.exists(f):
            raise Violation('success_without_output', 'the run ended without '
                            'an error but '
                            f'{os.path.basename(f)} does not exist')
        with real.open(f, 'rb') as g:
            raw = g.read()
        if ext in TAIL:
            if not raw.rstrip().endswith(TAIL[ext]):
                raise Violation('incomplete_output', f'{ext} image is cut '
                                f'({len(raw)} bytes)')
            continue
        try:
            im = Image.open(io.BytesIO(raw))
            im.load()
        except Exception as e:
            raise Violation('incomplete_output',
                            f'{ext} image does not load: {e}') from e
        ref = reference(run, d, root, ext, n)
        if ref is not None and (im.size != ref.size
                                or im.tobytes() != ref.tobytes()):
            raise Violation('incomplete_output', f'{ext} image of diagram '
                            f'{files.index(f) + 1} differs from drawing the '
                            'diagram')


def reference(run, d, root, ext, n):
    from PIL import Image
    kw = {}
    if run['opts']:
        kw['fontsize'] = 9
        if n == 1:
            kw['figsize'] = (3, 2)
    path = os.path.join(root, f'.ref.{ext}')
    try:
        try:
            d.normal_form().draw(path=path, **kw)
        except (ValueError, NotImplementedError):
            d.draw(path=path, **kw)
        im = Image.open(path)
        im.load()
        return im
    except Exception:
        return None
    finally:
        if os.path.exists(path):
            real.unlink(path)


# ------------------------------------------------------------------ running
def execute(case, ctx, disk, run, argv, attempt):
    """One simulated process; returns ('ok'|'error'|'killed', out)."""
    f = run['faults'] if attempt == 0 else {'plan': [], 'reads': []}
    disk.heal()
    f0 = len(disk.fired)
    disk.plan = {disk.n + k + 1: [kind, arg] for k, kind, arg in f['plan']}
    disk.rplan = {disk.rn + k: kind for k, kind in f['reads']}
    model = {}
    if f.get('model'):
        k, name = f['model']
        model[k] = __builtins_exc(name)
    CURRENT.update(salt=case['salt'], model=model, ctx=ctx)
    out = Out(f.get('out'), ctx)
    inp = In(text_of(run['_text']).split('\n')[0] + '\n', f.get('stdin'), ctx)
    keep = sys.argv, sys.stdout, sys.stdin
    what = 'ok'
    try:
        with disk:
            sys.argv, sys.stdout, sys.stdin = argv, out, inp
            try:
                cli.main()
                out.flush()
            except SimKill:
                what = 'killed'
            except SystemExit as e:
                what = 'ok' if e.code in (None, 0) else 'error'
            except (Violation, HarnessError):
                raise
            except BaseException as e:
                what = 'error'
                ctx.event(type(e).__name__, str(e)[:80].replace(
                    disk.root, ''))
            finally:
                sys.argv, sys.stdout, sys.stdin = keep
    finally:
        sys.argv, sys.stdout, sys.stdin = keep
    if disk.frozen:
        what = 'killed'
    fired = disk.fired[f0:]
    disk.plan, disk.rplan = {}, {}
    return what, out, inp, fired


def __builtins_exc(name):
    return {'RuntimeError': RuntimeError('CUDA out of memory'),
            'MemoryError': MemoryError(), 'ValueError': ValueError('bad'),
            'KeyboardInterrupt': KeyboardInterrupt()}[name]


def resolve(case, k, root, stored):
    """The run with index k and its command line, or None."""
    run = case['runs'][k]
    if 'load' not in run:
        argv, dest = arguments(run, root, os.path.join(root, f'args{k}'))
        return dict(run, _text=run), argv, dest
    j = run['load']
    if j >= k or j not in stored:
        return None
    base = stored[j]
    argv = ['lambeq', '-l', os.path.join(root, f'args{j}')]
    eff = dict(base, faults=run['faults'], store=run['store'], _text=base)
    dest = eff['_dest']
    if run['override'] and dest is not None and base['fmt'] != 'image':
        dest = os.path.join(root, 'elsewhere')
        argv += ['-o', dest]
    if run['store']:
        argv += ['-y', os.path.join(root, f'args{k}')]
    return eff, argv, dest


def run(case, ctx):
    with Scratch() as root, patched():
        disk = SimDisk(root, ctx=ctx)
        stored = {}
        for k in range(len(case['runs'])):
            item = resolve(case, k, root, stored)
            if item is None:
                continue
            r, argv, dest = item
            one_run(case, ctx, disk, root, k, r, argv, dest, stored)


def one_run(case, ctx, disk, root, k, r, argv, dest, stored):
    with bypass(), real.open(os.path.join(root, 'in.txt'), 'wb') as f:
        f.write(text_of(r['_text']).encode() + b'\n')
    disk.__init__(root, ctx=ctx)
    objs = pipeline(r['_text'], case['salt'])
    loaded = '-l' in argv
    if loaded:
        ctx.probe('arguments_loaded')
        ctx.nontrivial = True
    for attempt in (0, 1, 2):
        what, out, inp, fired = execute(case, ctx, disk, r, argv, attempt)
        ctx.steps += disk.n + disk.rn
        hit = bool(fired or out.fired or inp.fired)
        if hit or (attempt == 0 and r['faults'].get('model')):
            ctx.nontrivial = True
        ctx.state(attempt, what, [str(x)[:40] for x in fired], r['mode'],
                  r['fmt'], r['how'], r['in'], loaded, len(r['lines']))
        ctx.event(k, attempt, what, len(fired))
        ctx.probe(f'run_{what}')
        if what == 'killed':
            disk.__init__(root, ctx=ctx)      # the next process
            continue
        if what == 'ok':
            if out.fired or inp.fired:
                raise Violation('failure_hidden', 'the run ended without an '
                                'error although standard output or input '
                                'failed')
            hidden = [x for x in fired if not str(x).startswith(
                ('short', "('short"))]
            try:
                judge_output(r, dest, out, objs, root)
            except Violation as e:
                raise Violation(e.rule, f'run {k} ({" ".join(argv[1:])[:200]}'
                                f', faults {fired}): {e.message}'.replace(
                                    root, ''))
            if r['store']:
                stored[k] = dict(r, _dest=dest)
                stored[k].pop('_text', None)
                stored[k]['_text'] = None
                stored[k] = dict(r['_text'], _dest=dest)
            break
        if attempt and objs is not None and loaded:
            raise Violation('stored_arguments', f'run {k} with the arguments '
                            'that a successful run stored fails: '
                            f'{ctx.log[-2] if len(ctx.log) > 1 else ""}')
        if objs is None or not hit and attempt:
            break
