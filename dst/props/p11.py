"""P11: local parsers keep batch results aligned when sentences fail."""
import contextlib
import io
import json
import types

from dst import depccg_stub, parsers as P
from dst.core import HarnessError, Violation

from lambeq import BobcatParseError, DepCCGParseError, OncillaParseError

ID = 'P11'
RUNS = {'quick': 3000, 'thorough': 150000}
RULE = ('A case is a parser configuration and a history of batches on one '
        'parser object (sentences, blanks, duplicates, over-long sentences, '
        'words the tokeniser drops or rejects, words that make the network, '
        'the chart or the tree conversion fail) with transient model '
        'failures at chosen forward passes; non-trivial when a sentence '
        'failed or a fault fired.')
STATE_MEASURE = ('(parser, which sentences of the batch fail, batch size, '
                 'options, transient fault, outcome)')
REAL = ['BobcatParser', 'OncillaParser', 'Tagger', 'tokenizers',
        'BertForChartClassification.forward', 'ChartParser', 'Grammar',
        'BertForSentenceToTree._sentence2pred', 'DepCCGParser', 'CCGTree',
        'PregroupTree']
STUB = ['transformer encoders (a table of fixed scores per token)',
        'pre-trained weights and grammar files',
        'the depccg package (not installed): derivations are a function of '
        'the words']
ASSUMPTIONS = [
    'The network itself treats the sentences of a batch independently '
    '(attention masking is PyTorch\'s).',
    'The error for a failing sentence names its tokens; Oncilla may omit a '
    'final full stop, which it strips before parsing.',
    'A sentence that cannot be converted to a diagram raises the conversion '
    'error itself.']
SHRINK_LISTS = {'batches', 'sentences', 'faults'}
WORDS = (P.NOUNS + P.TRANS + P.INTR + P.ADJ + P.DET + P.ADV + P.CONJ
         + P.STOP + ['fishes', 'dogsly', 'seesing', 'xyzzy'])
FATAL = {'oom': lambda: RuntimeError('CUDA out of memory'),
         'value': lambda: ValueError('bad tensor'),
         'memory': lambda: MemoryError(),
         'interrupt': lambda: KeyboardInterrupt()}


def np(r):
    x = []
    if r.random() < 0.4:
        x.append(r.choice(P.DET))
        if r.random() < 0.4:
            x.append(r.choice(P.ADJ))
    x.append(r.choice(P.NOUNS))
    return x


def sentence(r, kind):
    wild = kind == 'oncilla'
    k = r.random()
    if k < 0.06:
        return []
    if k < 0.14 and wild:
        s = [r.choice(WORDS) for _ in range(r.choice([6, 7, 8]))]
        return s[:-2] + ['wild'] + s[-2:]
    if k < 0.5:
        s = np(r) + [r.choice(P.TRANS)] + np(r)
    elif k < 0.75:
        s = np(r) + [r.choice(P.INTR)]
    elif k < 0.85:
        s = np(r)
    else:
        s = [r.choice(WORDS) for _ in range(r.choice([1, 2, 3, 5]))]
    if r.random() < 0.15 and len(s) > 1:
        s = s + [r.choice(P.ADV)]
    if r.random() < 0.1:
        s = s + ['and'] + np(r)
    if r.random() < 0.2:
        s = s + ['.']
    if r.random() < 0.3:
        w = r.choice(P.BAD + ['wild', 'wild', 'wild', 'wild', '\u200b', '\u200b', '\ud800', 'fishesesesesly',
                              '\u200b'])
        if kind == 'depccg':
            w = r.choice(['nocat', 'oddtype', 'badrule', 'badrule'])
        s.insert(r.randrange(len(s) + 1), w)
    if r.random() < 0.08:
        s = s + [r.choice(['fisheseses', 'dogslyly', 'Bob'])
                 for _ in range(r.choice([4, 8, 12]))]
    return s


def gen(r, i, tier):
    kind = r.choice(['bobcat', 'bobcat', 'oncilla', 'depccg'])
    spec = {'salt': r.randrange(6), 'empties': r.choice([-4, -4, 0, 1]),
            'max_len': r.choice([10, 14, 14, 15]),
            'tagger': {'batch_size': r.choice([1, 2, 2, 3, 4, 8]),
                       'tag_top_k': r.choice([0, 1, 3]),
                       'tag_prob_threshold': r.choice([0.0, 0.0001, 0.1]),
                       'tag_prob_threshold_strategy': r.choice(
                           ['relative', 'absolute']),
                       'span_top_k': r.choice([0, 0, 4]),
                       'span_prob_threshold': r.choice([0.0, 0.001]),
                       'span_prob_threshold_strategy': r.choice(
                           ['relative', 'absolute'])},
            'eisner': r.random() < 0.7, 'beam': r.choice([2, 10]),
            'missing': r.choice([0.01, 0.3]),
            'root_cats': r.choice([None, None, ['S[dcl]'],
                                   ['S[dcl]', 'NP']])}
    batches = []
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.choice([0, 1, 2, 3, 4, 5, 7])
        ss = [sentence(r, kind) for _ in range(n)]
        if n and r.random() < 0.2:
            ss.append(list(r.choice(ss)))
        faults = []
        if r.random() < 0.25:
            faults = [[r.randrange(6), r.choice(['oom', 'oom', 'value',
                                                 'memory', 'interrupt'])]
                      for _ in range(r.choice([1, 1, 2]))]
        batches.append({
            'sentences': ss, 'faults': faults,
            'tokenised': r.random() < 0.6, 'suppress': r.random() < 0.7,
            'what': r.choice(['trees', 'trees', 'diagrams']),
            'planar': r.random() < 0.3, 'collapse': r.random() < 0.7,
            'single': len(ss) == 1 and r.random() < 0.4,
            'terse': r.random() < 0.4,
            'verbose': r.choice(['suppress', 'text', 'progress', None])})
    return {'parser': kind, 'spec': spec, 'batches': batches}


DEFAULTS = {'tokenised': False, 'suppress_exceptions': False,
            'planar': False, 'collapse_noun_phrases': True}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()):
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def key(x, what):
    if x is None:
        return None
    if what == 'trees':
        return json.dumps(x.to_json())
    return repr(x)


def call(kind, p, b, sents):
    """One public call for the given sentences."""
    if b['tokenised']:
        arg = [list(s) for s in sents]
    else:
        arg = [' '.join(s) if s else '  ' for s in sents]
    keep = json.dumps(arg)
    kw = {'tokenised': b['tokenised'], 'suppress_exceptions': b['suppress']}
    what = b['what'] if kind != 'oncilla' else 'diagrams'
    if what == 'diagrams' and kind != 'oncilla':
        kw.update(planar=b['planar'], collapse_noun_phrases=b['collapse'])
    if b.get('terse'):                # what is not said is the default
        kw = {k: v for k, v in kw.items()
              if v != DEFAULTS[k]}
    with quiet():
        if b.get('single'):
            f = (p.sentence2tree if what == 'trees' else p.sentence2diagram)
            out = [f(arg[0], **kw)]
        else:
            f = (p.sentences2trees if what == 'trees'
                 else p.sentences2diagrams)
            out = f(arg, verbose=('progress' if kind == 'depccg'
                                  else b['verbose']), **kw)
    if json.dumps(arg) != keep:
        raise Violation('input_changed', 'parsing changed the list of '
                        'sentences that was passed in')
    return [key(x, what) for x in out]


def model_of(kind, p):
    if kind == 'depccg':
        return types.SimpleNamespace(faults=p.dst_faults)
    return p.tagger.model if kind == 'bobcat' else p.model


def effective(sent, b):
    """Tokens as the parser sees them."""
    return list(sent) if b['tokenised'] else ' '.join(sent).split()


def alone(kind, spec, b, sent):
    """(result or None, rows the model was given), from a fresh parser."""
    P.clear_memo()
    p = P.make(kind, spec)
    one = dict(b, suppress=True, single=True, faults=[])
    toks = effective(sent, b)
    if not toks:
        return None, [], 'blank'
    if '\ud800' in toks and kind != 'depccg':
        return None, [], 'tokeniser'
    if kind == 'depccg' and depccg_stub.fails(toks):
        return None, [tuple(toks)], 'chart'
    if kind != 'depccg' and 'boom' in toks:
        return None, [], 'model'
    try:
        res = call(kind, p, one, [sent])
    except Violation:
        raise
    except Exception as e:
        raise Violation('failure_escapes', f'parsing {sent} alone with '
                        f'exceptions suppressed raised '
                        f'{type(e).__name__}: {e}')
    if len(res) != 1:
        raise Violation('result_count', f'{len(res)} results for a single '
                        'sentence')
    if kind == 'depccg' and b['what'] == 'trees':
        t = depccg_stub.derivation(toks)
        want = (None if depccg_stub.unconvertible(t)
                else json.dumps(depccg_stub.expected(t)))
        if res[0] != want:
            raise Violation('wrong_tree', f'depccg\'s derivation of {toks} '
                            f'is {want}, the parser returned {res[0]}')
    rows = [row for c in model_of(kind, p).faults.calls for row in c]
    return res[0], rows, 'fails' if res[0] is None else 'parses'


def check_words(kind, b, toks, res):
    """The result is about this very sentence."""
    if res is None:
        return
    if kind != 'oncilla' and b['what'] == 'trees':
        leaves = []

        def walk(t):
            kids = t.get('children') or []
            if not kids:
                leaves.append(t.get('text'))
            for k in kids:
                walk(k)
        walk(json.loads(res))
        if leaves != toks:
            raise Violation('wrong_sentence', f'the tree for {toks} has '
                            f'leaves {leaves}')


def run(case, ctx):
    kind, spec = case['parser'], case['spec']
    err_type = {'bobcat': BobcatParseError, 'oncilla': OncillaParseError,
                'depccg': DepCCGParseError}[kind]
    memo = {}
    expect = []
    for b in case['batches']:
        row = []
        for s in b['sentences']:
            k = json.dumps([s, b['tokenised'], b['what'], b['planar'],
                            b['collapse']])
            if k not in memo:
                memo[k] = alone(kind, spec, b, s)
                check_words(kind, b, effective(s, b), memo[k][0])
            row.append(memo[k])
        expect.append(row)
    P.clear_memo()
    p = P.make(kind, spec)
    mf = model_of(kind, p).faults
    mf.ctx = ctx
    for bi, b in enumerate(case['batches']):
        mf.plan = {mf.n + k: FATAL[f]() for k, f in b['faults']}
        mf.failed = []
        mf.interrupted = False
        fatal = [f for _, f in b['faults']]
        sents = b['sentences']
        exp = expect[bi]
        ctx.steps += len(sents)
        toks = [effective(s, b) for s in sents]
        failing = [j for j in range(len(sents)) if exp[j][0] is None]
        where = f'batch {bi} ({kind}, {len(sents)} sentences)'
        raised = None
        try:
            got = call(kind, p, b, sents)
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            raised = e
        finally:
            mf.plan = {}
        hit = {r for rows in mf.failed for r in rows}
        touched = [j for j in range(len(sents))
                   if hit & set(exp[j][1]) or (
                       mf.failed and exp[j][2] in ('model', 'tokeniser'))]
        if failing or mf.failed:
            ctx.nontrivial = True
        for j in failing:
            ctx.fault('sentence_' + exp[j][2])
        ctx.probe('sentence_parses', len(sents) - len(failing))
        ctx.state(kind, [x[2] for x in exp], spec['tagger']['batch_size'],
                  b['suppress'], b['what'], sorted(fatal), bool(mf.failed),
                  type(raised).__name__)
        ctx.event(bi, type(raised).__name__, str(raised),
                  None if raised else got)
        if raised is not None:
            if isinstance(raised, KeyboardInterrupt):
                if not mf.failed:
                    raise HarnessError('stray interrupt')
                ctx.probe('interrupted')
                continue
            if kind == 'depccg' and mf.failed:
                # a failure of the whole model call, not of a sentence
                ctx.probe('model_failure_reported')
                continue
            if b['suppress']:
                raise Violation(
                    'failure_escapes', f'{where}: exceptions are suppressed, '
                    f'but {type(raised).__name__}: {str(raised)[:200]} was '
                    'raised')
            if not failing and not touched:
                raise Violation(
                    'spurious_failure', f'{where}: every sentence parses '
                    f'alone, but {type(raised).__name__}: '
                    f'{str(raised)[:200]} was raised')
            blank = any(exp[j][2] == 'blank' for j in failing)
            if isinstance(raised, err_type):
                ok = set()
                for j in failing + touched:
                    ok.add(' '.join(toks[j]))
                    if kind == 'oncilla' and toks[j][-1:] == ['.']:
                        ok.add(' '.join(toks[j][:-1]))
                if raised.sentence not in ok:
                    raise Violation(
                        'wrong_sentence_blamed', f'{where}: the error names '
                        f'{raised.sentence!r}; the failing sentences are '
                        f'{sorted(ok)}')
            elif blank and isinstance(raised, ValueError):
                pass
            elif kind != 'oncilla' and b['what'] == 'diagrams' and any(
                    exp[j][2] == 'fails' for j in failing):
                pass             # conversion error of a tree
            else:
                raise Violation(
                    'not_a_parse_error', f'{where}: a failing sentence '
                    f'raised {type(raised).__name__}: {str(raised)[:200]} '
                    'instead of a parse error naming it')
            ctx.probe('error_reported')
            continue
        if mf.interrupted:
            raise Violation('interrupt_swallowed', f'{where}: the user '
                            'interrupted the model, but the call returned')
        if len(got) != len(sents):
            raise Violation('result_count', f'{where}: {len(got)} results')
        if not b['suppress'] and failing:
            j = failing[0]
            raise Violation(
                'failure_hidden', f'{where}: {toks[j]} cannot be parsed '
                f'({exp[j][2]}) but no error was raised; its result is '
                f'{str(got[j])[:200]}')
        for j in range(len(sents)):
            if got[j] == exp[j][0]:
                continue
            if got[j] is None and j in touched:
                ctx.probe('transient_failure_costs_sentence')
                continue
            raise Violation(
                'differs_from_alone', f'{where}: result {j} for {toks[j]} is '
                f'{str(got[j])[:300]}, but the sentence alone gives '
                f'{str(exp[j][0])[:300]}')
    for j in range(2):
        # the parser is as good as new
        b = dict(case['batches'][0], faults=[], suppress=True, single=False)
        if not b['sentences']:
            break
        try:
            got = call(kind, p, b, b['sentences'])
        except Violation:
            raise
        except Exception as e:
            raise Violation('failure_escapes', 'parsing again with '
                            f'exceptions suppressed raised '
                            f'{type(e).__name__}: {e}')
        if got != [x[0] for x in expect[0]]:
            raise Violation('parser_changed', 'parsing the first batch again '
                            'at the end gives other results')
