"""Generated CCG derivations: valid trees over given words."""
from lambeq.text2diagram import CCGTree
from lambeq import CCGParser  # noqa: F401
from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccg_type import CCGType


def P(cat):
    return CCGType.parse(cat.lower())


LEX = {'n': ['N', 'NP'], 'det': ['NP/N', 'N/N'], 'iv': ['S\\NP', 'S\\N'],
       'tv': ['(S\\NP)/NP'], 'adv': ['(S\\NP)\\(S\\NP)']}


def leaf(word, cat):
    return CCGTree(word, biclosed_type=P(cat))


def node(rule, cat, *kids):
    return CCGTree(rule=rule, biclosed_type=P(cat), children=list(kids))


def np(r, words):
    """A noun phrase over one or more words."""
    if len(words) == 1:
        if r.random() < 0.4:
            return node(CCGRule.UNARY, 'NP', leaf(words[0], 'N'))
        return leaf(words[0], 'NP')
    t = leaf(words[-1], 'N')
    for w in reversed(words[1:-1]):
        t = node(CCGRule.FORWARD_APPLICATION, 'N', leaf(w, 'N/N'), t)
    return node(CCGRule.FORWARD_APPLICATION, 'NP', leaf(words[0], 'NP/N'), t)


def tree(r, words):
    """A derivation of a sentence (or phrase) over the words."""
    n = len(words)
    if n == 1:
        return leaf(words[0], r.choice(['S', 'NP', 'N']))
    if n >= 4 and r.random() < 0.5:
        k = r.randrange(1, n - 2)
        subj, verb, obj = words[:k], words[k], words[k + 1:]
        vp = node(CCGRule.FORWARD_APPLICATION, 'S\\NP',
                  leaf(verb, '(S\\NP)/NP'), np(r, obj))
    elif n == 3 and r.random() < 0.5:
        subj, vp = words[:1], node(
            CCGRule.FORWARD_APPLICATION, 'S\\NP',
            leaf(words[1], '(S\\NP)/NP'), np(r, words[2:]))
    elif n >= 3 and r.random() < 0.5:
        subj = words[:-2]
        vp = node(CCGRule.BACKWARD_APPLICATION, 'S\\NP',
                  leaf(words[-2], 'S\\NP'),
                  leaf(words[-1], '(S\\NP)\\(S\\NP)'))
    else:
        subj, vp = words[:-1], leaf(words[-1], 'S\\NP')
    if r.random() < 0.2:
        return node(CCGRule.FORWARD_APPLICATION, 'S',
                    node(CCGRule.FORWARD_TYPE_RAISING, 'S/(S\\NP)',
                         np(r, subj)), vp)
    return node(CCGRule.BACKWARD_APPLICATION, 'S', np(r, subj), vp)
