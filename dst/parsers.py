"""Real Bobcat and Oncilla parsers over stub neural networks.

The networks' classes, the tagger, the tokeniser, the chart parser and the
wrappers are the real ones; only the transformer encoders are replaced, by a
table that gives each token fixed scores."""
from __future__ import annotations

import copy
import os
import tempfile

from tokenizers import Tokenizer, models, normalizers, pre_tokenizers
from tokenizers.processors import TemplateProcessing
import torch
from torch import nn
from transformers import PreTrainedTokenizerFast
from transformers.modeling_outputs import BaseModelOutput

from dst import depccg_stub
from dst.core import rng_for
import lambeq.bobcat.tagger as tagger_module
from lambeq import BobcatParser, OncillaParser
from lambeq.bobcat import (BertForChartClassification, ChartParser, Grammar,
                           Tagger)
from lambeq.bobcat.tagger import ChartClassifierConfig
from lambeq.oncilla import BertForSentenceToTree, SentenceToTreeBertConfig

SPECIAL = ['[PAD]', '[UNK]', '[CLS]', '[SEP]', '[MASK]', '[ROOT]']
NOUNS = ['Alice', 'Bob', 'fish', 'Claire', 'dogs', 'code']
TRANS = ['sees', 'likes', 'writes']
INTR = ['runs', 'sleeps']
ADJ = ['old', 'red']
DET = ['the', 'a']
ADV = ['quickly', 'well']
PIECES = ['##es', '##ing', '##ly']
CONJ = ['and']
STOP = ['.', ',']
BAD = ['boom', 'nanword', 'nocat', 'oddtype', 'untaggable', 'selfish',
       'cyclic', 'cyclid', 'farout', 'badtype', 'lonely', 'wild']
VOCAB = (SPECIAL + NOUNS + TRANS + INTR + ADJ + DET + ADV + PIECES + CONJ
         + STOP + BAD)
TOK = {w: i for i, w in enumerate(VOCAB)}
SCRATCH = None

S, NP, N = 'S[dcl]', 'NP', 'N'
IV = r'S[dcl]\NP'
TV = r'(S[dcl]\NP)/NP'
AV = r'(S\NP)\(S\NP)'
AVP = r'(S\NP)/(S\NP)'
MARKED = {
    'N': 'N{_}', 'NP': 'NP{_}', 'conj': 'conj{_}', '.': '.{_}', ',': ',{_}',
    'PP': 'PP{_}', 'LQU': 'LQU{_}', 'S[dcl]': 'S[dcl]{_}',
    'NP/N': '(NP{Y}/N{Y}<1>){_}', 'N/N': '(N{Y}/N{Y}<1>){_}',
    IV: r'(S[dcl]{_}\NP{Y}<1>){_}',
    TV: r'((S[dcl]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}',
    AV: r'((S[X]{Y}\NP{Z}){Y}\(S[X]{Y}<1>\NP{Z}){Y}){_}',
    AVP: r'((S[X]{Y}\NP{Z}){Y}/(S[X]{Y}<1>\NP{Z}){Y}){_}',
}
TAGS = ['N', 'NP', 'NP/N', 'N/N', IV, TV, AV, AVP, 'conj', '.', ',', 'LQU',
        'NOSUCH/CAT', 'S[dcl]']
CATS = ['LRB', 'NP', 'N', 'S[dcl]', IV, 'NP::N', r'NP[conj]', r'(S\NP)\(S\NP)',
        'N/N', 'S/(S\\NP)::NP', 'NP/N']


def lexicon_tags(word, salt):
    r = rng_for('tags', word, salt)
    if word in NOUNS:
        return [['N', 'NP'], ['N'], ['NP', 'N']][r.randrange(3)]
    if word in TRANS:
        return [[TV], [TV, IV]][r.randrange(2)]
    if word in INTR:
        return [[IV], [IV, TV]][r.randrange(2)]
    if word in ADJ:
        return ['N/N']
    if word in DET:
        return ['NP/N']
    if word in ADV:
        return [[AV], [AV, AVP]][r.randrange(2)]
    if word == 'and':
        return ['conj']
    if word in STOP:
        return [word]
    if word == 'nocat':
        return ['NOSUCH/CAT']
    if word == 'oddtype':
        return ['LQU']
    return ['N']


def tokenizer(max_len):
    t = Tokenizer(models.WordPiece(vocab=dict(TOK), unk_token='[UNK]',
                                   max_input_chars_per_word=50))
    t.normalizer = normalizers.BertNormalizer(lowercase=False)
    t.pre_tokenizer = pre_tokenizers.BertPreTokenizer()
    t.add_special_tokens(SPECIAL)
    t.post_processor = TemplateProcessing(
        single='[CLS] $A [SEP]', special_tokens=[('[CLS]', TOK['[CLS]']),
                                                 ('[SEP]', TOK['[SEP]'])])
    return PreTrainedTokenizerFast(
        tokenizer_object=t, model_max_length=max_len, pad_token='[PAD]',
        unk_token='[UNK]', cls_token='[CLS]', sep_token='[SEP]',
        model_input_names=['input_ids', 'token_type_ids', 'attention_mask'])


class ModelFaults:
    """Which forward passes fail, and what each was given."""

    def __init__(self, ctx=None):
        self.plan = {}             # call number -> exception
        self.n = 0
        self.calls = []
        self.interrupted = False
        self.failed = []           # rows of the calls that failed
        self.ctx = ctx

    def step(self, input_ids):
        rows = [tuple(x for x in row if x != 0) for row in input_ids.tolist()]
        self.rows(rows)
        if any(TOK['boom'] in row for row in rows):
            if self.ctx is not None:
                self.ctx.fault('model_fails_on_sentence')
            raise RuntimeError('CUDA error: device-side assert triggered')

    def rows(self, rows):
        self.calls.append(rows)
        k = self.n
        self.n += 1
        exc = self.plan.get(k)
        if exc is not None:
            self.failed.append(rows)
            if self.ctx is not None:
                self.ctx.fault('model_call_' + type(exc).__name__)
            self.interrupted |= isinstance(exc, KeyboardInterrupt)
            raise exc


class Encoder(nn.Module):
    def forward(self, input_ids, **kw):
        h = nn.functional.one_hot(input_ids, len(VOCAB)).float()
        h[input_ids == TOK['nanword']] = float('nan')
        return BaseModelOutput(last_hidden_state=h)


class StubBobcat(BertForChartClassification):
    def __init__(self, config, salt, empties):
        nn.Module.__init__(self)
        self.config = config
        self.bert = Encoder()
        self.dropout = nn.Identity()
        v = len(VOCAB)
        self.tag_classifier = nn.Linear(v, len(TAGS))
        self.span_classifier = nn.Linear(2 * v, len(CATS))
        r = rng_for('weights', salt)
        with torch.no_grad():
            self.tag_classifier.bias.zero_()
            self.span_classifier.bias.zero_()
            w = self.tag_classifier.weight
            w.copy_(torch.tensor([[r.uniform(-2, 0) for _ in range(v)]
                                  for _ in TAGS]))
            for word, i in TOK.items():
                if word == 'untaggable':
                    continue
                for k, tag in enumerate(lexicon_tags(word, salt)):
                    w[TAGS.index(tag), i] = 9.0 - k * r.choice([1, 1, 3, 7])
            s = self.span_classifier.weight
            s.copy_(torch.tensor([[r.uniform(-1, 1) for _ in range(2 * v)]
                                  for _ in CATS]))
            s[0] += empties
        self.faults = ModelFaults()
        for p in self.parameters():
            p.requires_grad_(False)

    def forward(self, *args, **kw):
        ids = kw['input_ids'] if 'input_ids' in kw else args[0]
        self.faults.step(ids)
        return super().forward(*args, **kw)


def clear_memo():
    memo = getattr(tagger_module, 'SPAN_MEMO', None)
    if hasattr(memo, 'clear'):
        memo.clear()


def grammar():
    cats = [c for c in MARKED]
    return Grammar(
        categories=dict(MARKED),
        binary_rules=[(a, b) for a in cats for b in cats]
        + [(r'S/(S\NP)', c) for c in cats] + [(c, r'S/(S\NP)') for c in cats]
        + [(c, r'NP\NP') for c in cats] + [(c, r'N\N') for c in cats]
        + [(c, 'S[dcl]/NP') for c in cats],
        type_changing_rules=[(1, 'N', None, 'NP', False)],
        type_raising_rules=[('NP', r'(S[X]{Y}/(S[X]{Y}\NP{_}){Y}){Y}', '+')])


class StubbedBobcat(BobcatParser):
    def _initialise_model(self, root_cats=None, *, spec=None, **kw):
        config = ChartClassifierConfig(tags=TAGS, cats=CATS,
                                       hidden_size=len(VOCAB))
        model = StubBobcat(config, spec['salt'], spec['empties']).eval()
        self.tagger = Tagger(model, tokenizer(spec['max_len']),
                             **spec['tagger'])
        self.parser = ChartParser(
            grammar(), CATS, root_cats,
            eisner_normal_form=spec['eisner'], max_parse_trees=2000,
            beam_size=spec['beam'], input_tag_score_weight=0.5,
            missing_cat_score=0.01, missing_span_score=spec['missing'])


class StubOncilla(BertForSentenceToTree):
    """Scores types and parents from a table of words."""

    def __init__(self, config, salt):
        nn.Module.__init__(self)
        self.config = config
        self.salt = salt
        self.faults = ModelFaults()
        self.types = list(config.types)

    def plan(self, words):
        """words: token strings; returns list of (type, parent), 0 = root."""
        verbs = [i + 1 for i, w in enumerate(words) if w in TRANS + INTR]
        out = []
        for i, w in enumerate(words):
            me = i + 1
            ty, par = 'n', 0
            if w in TRANS + INTR:
                ty, par = 's', 0 if me == verbs[0] else verbs[0]
            elif w in ADJ or w in DET:
                ty, par = ('n @ n.l' if w == 'red' else 'n'), me + 1
                if par > len(words):
                    par = me - 1
            elif w in ADV:
                ty, par = 's', (verbs[0] if verbs else me - 1)
            elif verbs:
                par = min(verbs, key=lambda v: abs(v - me))
            elif i:
                par = 1
            if w == 'selfish':
                par = me
            elif w == 'cyclic':
                par = me + 1 if me < len(words) else me - 1
            elif w == 'cyclid':
                par = me - 1
            elif w == 'farout':
                par = 15
            elif w == 'badtype':
                ty = 'unk'
            elif w == 'lonely':
                ty, par = 's', 0
            out.append((ty, par))
        if 'wild' in words:
            # any prediction the network can make
            r = rng_for('wild', self.salt, words)
            out = [(r.choice(self.types[1:]),
                    r.randrange(1, len(words) + 1)) for _ in words]
            out[r.randrange(len(words))] = (r.choice(self.types[1:]), 0)
        return out

    def forward(self, input_ids=None, **kw):
        self.faults.step(input_ids)
        ids = input_ids[0].tolist()
        toks = [VOCAB[i] for i in ids]
        words, owner = [], []
        for t in toks:
            if t in ('[CLS]', '[SEP]', '[ROOT]'):
                owner.append(None)
            elif t.startswith('##') and words:
                owner.append(len(words) - 1)
            else:
                words.append(t)
                owner.append(len(words) - 1)
        plan = self.plan(words)
        T = len(ids)
        types = torch.zeros(1, T, len(self.types))
        parents = torch.full((1, T, 16), -5.0)
        for k, o in enumerate(owner):
            if o is None:
                continue
            ty, par = plan[o]
            types[0, k, self.types.index(ty)] = 5.0
            parents[0, k, par] = 5.0
            parents[0, k, 0] += 0.1 * ((o * 7) % 5)
            if toks[k] == 'nanword':
                types[0, k] = float('nan')
                parents[0, k] = float('nan')
        from lambeq.oncilla.parser import SentenceToTreeOutput
        return SentenceToTreeOutput(type_logits=types, parent_logits=parents)


class StubbedOncilla(OncillaParser):
    SPEC = None

    def _initialise_model(self, **kw):
        spec = self.SPEC
        self.tokenizer = tokenizer(spec['max_len'])
        self.model_config = SentenceToTreeBertConfig(
            types=['unk', 'n', 's', 'n @ n.l', 'n.r @ s', 'n @ n',
                   's.r @ n.l'], hidden_size=8)
        self.model = StubOncilla(self.model_config, spec['salt']).eval()


def scratch():
    """An empty directory that stands for the installed model's.  One fixed
    name, as simulated runs end by _exit and could not remove their own."""
    global SCRATCH
    if SCRATCH is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') else tempfile.gettempdir()
        SCRATCH = os.path.join(base, f'dst-parsers-{os.getuid()}')
        os.makedirs(SCRATCH, exist_ok=True)
    return SCRATCH


def make(kind, spec, verbose='suppress'):
    spec = copy.deepcopy(spec)
    if kind == 'bobcat':
        return StubbedBobcat(scratch(), root_cats=spec.get('root_cats'),
                             verbose=verbose, spec=spec)
    if kind == 'depccg':
        return depccg_stub.make(ModelFaults())
    StubbedOncilla.SPEC = spec
    return StubbedOncilla(scratch(), verbose=verbose)
