"""A stand-in for the depccg package, for the real DepCCGParser to drive.

A sentence's tree is a function of its words alone; which sentences fail, and
where, is decided by the words too."""
from __future__ import annotations

import sys
import types

from dst import ccg
from dst.core import rng_for

MAX_WORDS = 14


class Category:
    """depccg's category objects, as far as the wrapper looks at them."""

    def __init__(self, text, base=None, left=None, slash=None, right=None):
        self.text = text
        self.is_functor = slash is not None
        if self.is_functor:
            self.left, self.slash, self.right = left, slash, right
        else:
            self.base = base

    def __eq__(self, other):
        return isinstance(other, Category) and self.text == other.text

    def __hash__(self):
        return hash(self.text)

    def __str__(self):
        return self.text

    __repr__ = __str__

    @classmethod
    def parse(cls, text):
        text = str(text)
        depth = 0
        cut = None
        for i, c in enumerate(text):
            depth += c in '(' 
            depth -= c in ')'
            if depth == 0 and c in '/\\' and i:
                cut = i
        if cut is None:
            if text.startswith('(') and text.endswith(')'):
                return cls.parse(text[1:-1])
            return cls(text, base=text.split('[')[0])
        return cls(text, left=cls.parse(text[:cut]), slash=text[cut],
                   right=cls.parse(text[cut + 1:]))


class Token:
    def __init__(self, word):
        self.word = word


class Tree:
    def __init__(self, cat, children=(), word='', op_string='', op_symbol=''):
        self.cat = Category.parse(cat)
        self.children = list(children)
        self.is_leaf = not self.children
        self.word = word or ' '.join(c.word for c in children)
        self.op_string = op_string
        self.op_symbol = op_symbol


class ScoredTree:
    def __init__(self, tree, score):
        self.tree = tree
        self.score = score


def cat_text(t):
    """A lambeq category in depccg's notation."""
    if t.is_atomic:
        return {'n': 'N', 'np': 'NP', 's': 'S[dcl]', 'pp': 'PP',
                'conj': 'conj', 'punc': '.'}.get(t.name.lower(), t.name)
    parts = [cat_text(x) for x in (t.result, t.argument)]
    parts = [f'({p})' if '/' in p or '\\' in p else p for p in parts]
    return parts[0] + t.direction + parts[1]


def convert(t):
    """A lambeq derivation as depccg would give it."""
    cat = cat_text(t.biclosed_type)
    if not t.children:
        if t.text == 'oddtype':
            cat = 'LQU'
        return Tree(cat, word=t.text)
    kids = [convert(c) for c in t.children]
    rule = str(t.rule.value)
    if rule == 'U':
        return Tree(cat, kids, op_string='lex', op_symbol='<un>')
    if rule in ('FTR', 'BTR'):
        return Tree(cat, kids, op_string='tr', op_symbol='<T>')
    op = rule.lower()
    if any(k.is_leaf and k.word == 'badrule' for k in kids):
        op = 'sseq'
    return Tree(cat, kids, op_string=op, op_symbol=t.rule.symbol)


def derivation(words):
    return ccg.tree(rng_for('depccg', list(words)), list(words))


def unconvertible(t):
    """Does the derivation have a category lambeq does not know?"""
    if not t.children:
        return t.text == 'oddtype'
    return any(map(unconvertible, t.children))


def expected(t):
    """The tree to return, as JSON; unfamiliar rules are unknown rules."""
    d = t.to_json()
    if t.children:
        d['children'] = [expected(c) for c in t.children]
        if (any(not k.children and k.text == 'badrule' for k in t.children)
                and str(t.rule.value) not in ('U', 'FTR', 'BTR')):
            d.pop('rule', None)
    return d


def fails(words):
    return 'nocat' in words or len(words) > MAX_WORDS


class Tagger:
    def __init__(self, faults):
        self.faults = faults

    def predict_doc(self, doc):
        self.faults.rows([tuple(s) for s in doc])
        return ([list(s) for s in doc],
                ['N', 'NP', 'S[dcl]', 'NP/N', 'S[dcl]\\NP'])


FAULTS = None


def run(doc, scores, categories, roots, binary, unary, **kw):
    out = []
    for sent in doc:
        words = [t.word for t in sent]
        if fails(words):
            t = Tree('S[dcl]', word='FAILED')
            out.append([ScoredTree(t, float('-inf'))])
        else:
            t = convert(derivation(words))
            out.append([ScoredTree(t, -1.0 * len(words))]
                       + [ScoredTree(t, -99.0)] * (len(words) % 3))
    return out


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    if '.' in name:
        parent, _, last = name.rpartition('.')
        setattr(sys.modules[parent], last, m)
    m.__path__ = []
    sys.modules[name] = m
    return m


def annotate_XX(sentences, tokenize=False):
    return [[Token(w) for w in s] for s in sentences]


def install():
    if 'depccg' in sys.modules:
        return
    ns = types.SimpleNamespace
    module('depccg')
    module('depccg.allennlp')
    module('depccg.allennlp.utils',
           read_params=lambda c: (None, None, {}, None))
    module('depccg.annotator', annotate_XX=annotate_XX, english_annotator={},
           japanese_annotator={})
    module('depccg.cat', Category=Category)
    module('depccg.lang', set_global_language_to=lambda lang: None)
    module('depccg.tree', Tree=Tree, ScoredTree=ScoredTree)
    module('depccg.parsing', run=run,
           apply_category_filters=lambda d, s, c, k: (d, s))
    module('depccg.instance_models',
           load_model=lambda m, d: (Tagger(FAULTS), ns(config=None)),
           GRAMMARS={'en': ns(apply_unary_rules=lambda *a, **k: [])})


def make(faults):
    global FAULTS
    install()
    from lambeq import DepCCGParser
    FAULTS = faults
    p = DepCCGParser()
    p.dst_faults = faults
    return p
