"""P16: a functor's answers do not depend on what it was asked before."""
import pickle

import numpy as np

from dst.core import Violation, digest

from lambeq import (AtomicType, CoordinationRewriteRule, CurryRewriteRule,
                    IQPAnsatz, MPSAnsatz, RemoveCupsRewriter,
                    RemoveSwapsRewriter, Rewriter, RewriteRule, Sim4Ansatz,
                    Sim14Ansatz, Sim15Ansatz, SimpleRewriteRule, SpiderAnsatz,
                    StronglyEntanglingAnsatz, TensorAnsatz,
                    UnifyCodomainRewriter, UnknownWordsRewriteRule)
from lambeq.backend import grammar as G, quantum as Q, tensor as T
from lambeq.backend.grammar import Box, Cap, Cup, Frame, Functor, Spider
from lambeq.backend.grammar import Diagram, Swap, Ty, Word
from lambeq.backend.tensor import Dim

ID = 'P16'
RUNS = {'quick': 10000, 'thorough': 400000}
BLOCK = 100
RULE = ('A case is a functor, ansatz or rewriter and a history of questions '
        'to it (types, boxes, diagrams), with failures and ill-typed answers '
        'of the user-supplied mapping at chosen calls, changes made by the '
        'caller to earlier results or inputs, and rules added in between; '
        'non-trivial when a question was asked again after a fault, a change '
        'or a different question.')
STATE_MEASURE = ('(kind of functor, sequence of what was asked, where the '
                 'mapping failed, what was changed)')
REAL = ['Functor', 'CircuitAnsatz and TensorAnsatz classes', 'Rewriter',
        'rewrite rules', 'DiagramRewriter classes', 'diagram classes of the '
        'three categories']
STUB = ['user-supplied mappings and rules, scripted to fail']
ASSUMPTIONS = ['User mappings are functions of the box or type they are given '
               'except where a failure is injected.']
SHRINK_LISTS = {'ops', 'specs', 'steps', 'start', 'rules'}

ANSATZ = {'iqp': IQPAnsatz, 'sim4': Sim4Ansatz, 'sim14': Sim14Ansatz,
          'sim15': Sim15Ansatz, 'strong': StronglyEntanglingAnsatz}
KINDS = ['user', 'user', 'user', 'circuit', 'tensorf', 'iqp', 'sim4', 'sim14',
         'sim15', 'strong', 'tensor', 'tensor', 'mps', 'spider', 'rewriter',
         'rewriter', 'rewriter', 'cups', 'swaps', 'unify']
N, S, P = AtomicType.NOUN, AtomicType.SENTENCE, \
    AtomicType.PREPOSITIONAL_PHRASE
ATOMS = {'n': N, 's': S, 'p': P}
DEFAULT_RULES = ['auxiliary', 'connector', 'determiner', 'postadverb',
                 'preadverb', 'prepositional_phrase', 'coordination', 'curry',
                 'object_rel_pronoun', 'subject_rel_pronoun']
RULES = ['template', 'template2', 'raise', 'ill', 'unknown', 'coord2',
         'curry2']
# words and types that the predefined rules rewrite
LEXICON = [('the', 'n n.l'), ('that', 's s.l'), ('well', 's.r n.r.r n.r s'),
           ('well', 's.r n.r.r n.r s'), ('is', 'n.r s s.l n'),
           ('slowly', 'n.r s s.l n'), ('and', 'n.r n n.l'),
           ('and', 's.r s s.l'), ('who', 'n.r n s.l n'),
           ('that', 'n.r n n.l.l s.l'), ('likes', 'n.r s n.l'),
           ('in', 's.r n.r.r n.r s n.l'), ('Bob', 'n'), ('sings', 'n.r s')]


class Injected(Exception):
    pass


# ------------------------------------------------------------- generation
def gen_type(r, n):
    return ' '.join(r.choice('nnnsp') + r.choice(['', '', '', '.l', '.r'])
                    for _ in range(n))


def gen_spec(r, kind):
    if kind == 'circuit':
        n = r.choice([1, 2, 2, 3])
        gates = []
        for _ in range(r.choice([1, 2, 4, 6])):
            g = r.choice(['H', 'X', 'Z', 'S', 'Rx', 'Ry', 'CX', 'CX', 'CZ',
                          'CRz', 'SWAP', 'Ket0', 'Ket1', 'Bra0', 'Bra1',
                          'Sqrt', 'Scalar', 'Discard'])
            gates.append([g, r.randrange(4), r.choice([1, 1, -1, 2]),
                          r.choice([0.25, 0.5, 0.25, -0.5, 1.0]),
                          r.choice([0, 0, 0, 'dg'])])
        return {'qubits': n, 'steps': gates}
    if kind == 'tensorf':
        return {'dims': [r.choice([2, 2, 3])] * r.choice([1, 2]),
                'steps': [[r.choice('fgh'), r.randrange(3), r.randrange(3),
                           r.choice([2, 2, 3]), r.choice([0, 0, 1, 'dg'])]
                          for _ in range(r.choice([1, 2, 3]))]}
    if kind in ('cups', 'swaps', 'unify'):
        return {'words': [r.choice(['Bob', 'Ann', 'the', 'likes', 'sings',
                                    'gives'])
                          for _ in range(r.choice([1, 2, 3, 4]))],
                'swap': r.random() < 0.5}
    if r.random() < 0.15:
        return {'type': gen_type(r, r.choice([0, 1, 2, 3]))}
    if kind == 'rewriter' and r.random() < 0.7:
        return {'start': '', 'steps': [
            ['word', *r.choice(LEXICON), 99]
            for _ in range(r.choice([1, 2, 3]))]}
    steps = []
    for _ in range(r.choice([1, 2, 3, 5])):
        x = r.random()
        if x < 0.3:
            steps.append(['word', r.choice(['aBob', 'aAnn', 'cX', 'rY', 'kW',
                                            'eE', 'iI']),
                          gen_type(r, r.choice([1, 1, 2, 3])),
                          r.randrange(4)])
        elif x < 0.6:
            steps.append(['box', r.choice(['aF', 'aG', 'cF', 'rF', 'kF',
                                           'eF', 'iF']),
                          gen_type(r, r.choice([0, 1, 2])), r.randrange(4),
                          r.choice([0, 1, 1, 2]), r.choice([0, 0, 0, 1, -1, 2]),
                          r.choice([0, 0, 0, 'dg'])])
        elif x < 0.72:
            steps.append(['cup', r.randrange(4)])
        elif x < 0.82:
            steps.append(['cap', r.choice('nsp'), r.randrange(4),
                          r.choice([1, -1])])
        elif x < 0.9:
            steps.append(['swap', r.randrange(4)])
        elif x < 0.97 or kind not in ('user', 'rewriter'):
            steps.append(['spider', r.randrange(4), r.choice([0, 1, 2, 3])])
        else:
            steps.append(['frame', r.choice(['aM', 'cM', 'eM']),
                          gen_type(r, r.choice([0, 1])), r.randrange(4),
                          r.choice([0, 1]),
                          [r.choice(['aQ', 'eQ']) for _ in range(
                              r.choice([1, 2]))]])
    return {'start': gen_type(r, r.choice([0, 0, 1, 2])), 'steps': steps}


def gen(r, i, tier):
    kind = r.choice(KINDS)
    specs = [gen_spec(r, kind) for _ in range(r.choice([1, 2, 2, 3]))]
    if len(specs) > 1 and r.random() < 0.5 and 'steps' in specs[0]:
        # questions that share boxes
        pool = [s for sp in specs for s in sp.get('steps', [])]
        specs.append({**specs[0],
                      'steps': [r.choice(pool)
                                for _ in range(r.choice([1, 2, 3]))]})
    ops = []
    for _ in range(r.choice([2, 3, 4, 6, 8])):
        x = r.random()
        if x < 0.12 and kind == 'rewriter':
            ops.append({'op': 'add', 'rule': r.choice(DEFAULT_RULES + RULES),
                        'bogus': r.random() < 0.3})
            continue
        op = {'op': 'ask', 'q': r.randrange(len(specs)),
              'who': r.choice([0, 0, 0, 1]), 'reuse': r.random() < 0.4}
        if r.random() < 0.3:
            op['fault'] = [r.choice(['ar', 'ar', 'ob']), r.choice([0, 0, 1, 2]),
                           r.choice(['raise', 'raise', 'ill', 'kill'])]
        if r.random() < 0.45:
            op['change'] = [r.choice(['name', 'name', 'data', 'layers', 'cod',
                                      'side']),
                            r.randrange(6)]
        if r.random() < 0.1 and kind in ('tensorf', 'circuit'):
            op['tweak'] = r.randrange(4)
        ops.append(op)
    return {'kind': kind, 'specs': specs, 'ops': ops,
            'rules': [r.choice(DEFAULT_RULES + RULES)
                      for _ in range(r.choice([1, 2, 3]))]
            if r.random() < 0.8 else None,
            'conf': {'n': r.choice([1, 1, 2]), 's': r.choice([0, 1, 1, 2]),
                     'p': r.choice([0, 1, 2]), 'layers': r.choice([1, 1, 2]),
                     'anc': r.choice([None, None, 1, 'f']),
                     'discard': r.random() < 0.3,
                     'order': r.choice([2, 3, 3, 4]),
                     'left': r.random() < 0.5,
                     'missing': r.random() < 0.15}}


# ------------------------------------------------------------- the questions
def ty(text):
    out = Ty()
    for part in text.split():
        name, *adj = part.split('.')
        t = ATOMS.get(name, Ty(name))
        for a in adj:
            t = t.l if a == 'l' else t.r
        out = out @ t
    return out


def build_grammar(spec):
    if 'type' in spec:
        return ty(spec['type'])
    d = G.Id(ty(spec['start']))
    for st in spec['steps']:
        cod = d.cod
        w = len(cod)
        op = st[0]
        if op == 'word':
            p = min(st[3], w)
            if st[2]:
                d = d.then_at(Word(st[1], ty(st[2])), p)
        elif op == 'box':
            k = min(st[4], w)
            p = min(st[3], w - k)
            z = st[5]
            inner, out = cod[p:p + k], ty(st[2])
            if st[6] == 'dg':
                b = Box(st[1], out.rotate(-z), inner.rotate(-z))
                b = (b.rotate(z) if z else b).dagger()
            else:
                b = Box(st[1], inner.rotate(-z), out.rotate(-z))
                b = b.rotate(z) if z else b
            d = d.then_at(b, p)
        elif op == 'cup':
            for p in range(w - 1):
                p = (p + st[1]) % (w - 1)
                if cod[p].r == cod[p + 1] or cod[p].l == cod[p + 1]:
                    d = d.then_at(Cup(cod[p], cod[p + 1],
                                      cod[p].l == cod[p + 1]), p)
                    break
        elif op == 'cap':
            t = ty(st[1])
            d = d.then_at(Cap(t, t.l) if st[3] > 0
                          else Cap(t, t.r, is_reversed=True), min(st[2], w))
        elif op == 'swap' and w > 1:
            p = st[1] % (w - 1)
            d = d.then_at(Swap(cod[p], cod[p + 1]), p)
        elif op == 'spider' and w:
            p = st[1] % w
            d = d.then_at(Spider(cod[p], 1, st[2]), p)
        elif op == 'frame':
            k = min(st[4], w)
            p = min(st[3], w - k)
            d = d.then_at(Frame(st[1], cod[p:p + k], ty(st[2]),
                                components=[Box(c, N, N) for c in st[5]]), p)
    return d


def build_sentence(spec):
    """A pregroup sentence: words, then cups wherever they fit."""
    types = {'Bob': 'n', 'Ann': 'n', 'the': 'n n.l', 'likes': 'n.r s n.l',
             'sings': 'n.r s', 'gives': 'n.r s n.l n.l'}
    d = G.Id()
    for w in spec['words']:
        d = d @ Word(w, ty(types[w]))
    if spec.get('swap') and len(d.cod) > 2:
        d = d.then_at(Swap(d.cod[0], d.cod[1]), 0)
        d = d.then_at(Swap(d.cod[0], d.cod[1]), 0)
    while True:
        for p in range(len(d.cod) - 1):
            if d.cod[p].r == d.cod[p + 1]:
                d = d.then_at(Cup(d.cod[p], d.cod[p + 1]), p)
                break
        else:
            return d


def build_circuit(spec):
    d = Q.Id(spec['qubits'])
    for g, pos, dist, phase, dg in spec['steps']:
        w = len(d.cod)
        one = {'H': Q.H, 'X': Q.X, 'Z': Q.Z, 'S': Q.S}
        if g in one and w:
            b, k = one[g], 1
        elif g in ('Rx', 'Ry') and w:
            b, k = getattr(Q, g)(phase), 1
        elif g in ('CX', 'CZ', 'CRz') and w > abs(dist):
            base = {'CX': Q.X, 'CZ': Q.Z}.get(g) or Q.Rz(phase)
            b, k = Q.Controlled(base, dist), 1 + abs(dist)
        elif g == 'SWAP' and w > 1:
            b, k = Q.Swap(Q.qubit, Q.qubit), 2
        elif g in ('Ket0', 'Ket1'):
            if w > 3:
                continue
            b, k = Q.Ket(int(g[3])), 0
        elif g in ('Bra0', 'Bra1', 'Discard') and w > 1:
            b, k = (Q.Discard() if g == 'Discard' else Q.Bra(int(g[3]))), 1
        elif g in ('Sqrt', 'Scalar'):
            # names of scalars are rounded: close values share one
            b, k = (Q.Sqrt(2) if g == 'Sqrt'
                    else Q.Scalar(0.5 + phase * 1e-5)), 0
        else:
            continue
        if dg == 'dg' and g in ('S', 'Rx', 'CRz', 'Ry'):
            b = b.dagger()
        d = d.then_at(pickle.loads(pickle.dumps(b)), pos % (w - k + 1))
    return d


def build_tensor(spec):
    d = T.Id(Dim(*spec['dims']))
    for name, pos, k, out, var in spec['steps']:
        w = len(d.cod)
        k = min(k, w)
        p = pos % (w - k + 1)
        dom, cod = d.cod[p:p + k], Dim(out)
        if k == 0:
            dom = Dim()
        # several boxes share their name and shape but not their data
        n = dom.product * cod.product
        data = np.arange(n, dtype=float) + pos + (1j if var == 1 else 0)
        if var == 'dg':
            b = T.Box(name, cod, dom, data).dagger()
        else:
            b = T.Box(name, dom, cod, data)
        d = d.then_at(b, p)
    return d


def build(kind, spec):
    if kind == 'circuit':
        return build_circuit(spec)
    if kind == 'tensorf':
        return build_tensor(spec)
    if kind in ('cups', 'swaps', 'unify'):
        return build_sentence(spec)
    return build_grammar(spec)


# ------------------------------------------------------------- the functors
class Script:
    """Decides when the user-supplied mapping fails."""

    def __init__(self):
        self.arm(None)
        self.calls = 0

    def arm(self, fault):
        self.fault = list(fault) if fault else None
        self.fired = None

    def hit(self, where):
        """Called on every use of the mapping; may raise, may return 'ill'."""
        self.calls += 1
        f = self.fault
        if f is None or f[0] != where:
            return None
        if f[1]:
            f[1] -= 1
            return None
        self.fault = None
        self.fired = f[2]
        if f[2] == 'raise' or (f[2] == 'ill' and where == 'ob'):
            self.fired = 'raise'
            raise Injected(where)
        if f[2] == 'kill':
            raise KeyboardInterrupt(where)
        return 'ill'


class ObMap(dict):
    """The user's map from types, failing when told."""

    script = None

    def __getitem__(self, k):
        if self.script:
            self.script.hit('ob')
        return super().__getitem__(k)


class ScriptedRule(RewriteRule):
    def __init__(self, script, name, mode):
        self.script, self.name, self.mode = script, name, mode

    def matches(self, box):
        self.ill = self.script.hit('ar')
        return self.ill or (box.name.lower() == self.name and not box.z
                            and type(box) in (Box, Word))

    def rewrite(self, box):
        if self.ill:
            return Box('ill', box.dom, box.cod @ Ty('ill'))
        if self.mode == 'raise':
            raise ValueError(f'no rewrite for {box.name}')
        return Box('ill', box.dom, box.cod @ Ty('ill'))

    def __call__(self, box):
        return self.rewrite(box) if self.matches(box) else None


def make_rule(name, script):
    if name == 'template':
        return SimpleRewriteRule(
            N, Word('tmpl', N @ S) >> G.Id(N) @ Box('kill', S, Ty()))
    if name == 'template2':
        return SimpleRewriteRule(
            N.r @ S, SimpleRewriteRule.placeholder(N.r @ S)
            >> Box('post', N.r @ S, N.r @ S))
    if name in ('raise', 'ill'):
        return ScriptedRule(script, {'raise': 'ann', 'ill': 'sings'}[name],
                            name)
    if name == 'unknown':
        return UnknownWordsRewriteRule({'Bob', 'the', ('likes', ty('n')),
                                        'aBob'})
    if name == 'coord2':
        return CoordinationRewriteRule(['and', 'that'])
    if name == 'curry2':
        return CurryRewriteRule()
    return name


PRISTINE = [(rule, pickle.dumps(rule.template))
            for rule in Rewriter._available_rules.values()
            if hasattr(rule, 'template')] \
    if hasattr(Rewriter, '_available_rules') else []


GATES = [(b, pickle.dumps(vars(b))) for b in vars(Q).values()
         if isinstance(b, Q.Box)]


def restore_shared():
    """Undo what an earlier run in this process did to rule templates and
    predefined gates, so that a run does not depend on the ones before it."""
    for rule, blob in PRISTINE:
        rule.template = pickle.loads(blob)
    for gate, blob in GATES:
        vars(gate).update(pickle.loads(blob))


def user_functor(script):
    obs = {'n': Ty('m'), 's': Ty('x') @ Ty('y'), 'p': Ty()}
    kept = {}

    def ob(f, t):
        script.hit('ob')
        if t.name == 'bad':
            raise KeyError(t.name)
        return obs.get(t.name, t)

    def ar(f, box):
        ill = script.hit('ar')
        dom, cod = f(box.dom), f(box.cod)
        if ill:
            return Box('ill', dom, cod @ Ty('ill'))
        k, name = box.name[:1], box.name
        if k == 'e':
            raise ValueError(f'cannot map {name}')
        if k == 'i':
            return Box(name, dom, cod @ Ty('extra'))
        if k == 'c':
            return Box(name + '1', dom, Ty('mid')) >> Box(name + '2',
                                                          Ty('mid'), cod)
        if k == 'r':
            return f(Box('a' + name[1:], box.dom, box.cod))
        if k == 'k':
            key = (name, repr(box.dom), repr(box.cod))
            return kept.setdefault(key, Box(name, dom, cod))
        if isinstance(box, Frame):
            return Frame(name, dom, cod,
                         components=[f(c) for c in box.components])
        return Box(name + "'", dom, cod)

    return Functor(G.grammar, ob=ob, ar=ar)


def circuit_functor(script):
    def ob(f, t):
        script.hit('ob')
        return t

    def ar(f, box):
        if script.hit('ar'):
            return Q.Box('ill', box.dom, box.cod @ Q.qubit)
        if isinstance(box, Q.Controlled):
            if box.distance == 1:
                return box >> box
            return Q.Id(box.dom) >> box.decompose()
        if isinstance(box, Q.Rx):
            return Q.Rx(box.phase * 2) >> Q.Ry(box.phase)
        if isinstance(box, Q.Ket) and box.bit:
            return Q.Ket(0) >> Q.X
        if isinstance(box, Q.Scalar) and not isinstance(box, Q.Sqrt):
            return Q.Scalar(box.data * 2)
        if box.name == 'X':
            return Q.H >> Q.Z >> Q.H
        return box

    return Functor(Q.quantum, ob=ob, ar=ar)


def tensor_functor(script):
    def ob(f, t):
        script.hit('ob')
        return Dim(*(d + 1 for d in t.dim))

    def ar(f, box):
        ill = script.hit('ar')
        dom, cod = f(box.dom), f(box.cod)
        if ill:
            return T.Box('ill', dom, cod @ Dim(7))
        data = np.zeros(dom.product * cod.product, dtype=complex)
        flat = np.asarray(box.data).flatten()
        data[:len(flat)] = flat
        return T.Box(box.name + '+', dom, cod, data)

    return Functor(T.tensor, ob=ob, ar=ar)


def make(case, script, added=(), rules=None):
    kind, c = case['kind'], case['conf']
    if kind == 'user':
        return user_functor(script)
    if kind == 'circuit':
        return circuit_functor(script)
    if kind == 'tensorf':
        return tensor_functor(script)
    if kind == 'cups':
        return RemoveCupsRewriter()
    if kind == 'swaps':
        return RemoveSwapsRewriter()
    if kind == 'unify':
        return UnifyCodomainRewriter(Ty('out'))
    if kind == 'rewriter':
        if rules is None:
            rules = case['rules'] and [make_rule(n, script)
                                       for n in case['rules']]
        rw = Rewriter(rules and list(rules))
        for a in added:
            rw.add_rules(make_rule(a, script))
        return rw
    if kind in ANSATZ:
        ob = {N: c['n'], S: c['s']}
        if not c['missing']:
            ob[P] = c['p']
        anc = c['anc']
        if anc == 'f':
            def n_ancillas(box):
                script.hit('ar')
                return len(box.name) % 2
            anc = n_ancillas
        a = ANSATZ[kind](ob, n_layers=c['layers'], discard=c['discard'],
                         n_ancillas=anc or 0)
        return a
    ob = ObMap({N: Dim(c['n'] + 1), S: Dim(c['s'] + 1)})
    if not c['missing']:
        ob[P] = Dim(c['p'] + 1)
    ob.script = script
    if kind == 'tensor':
        return TensorAnsatz(ob)
    if kind == 'mps':
        return MPSAnsatz(ob, bond_dim=2, max_order=max(3, c['order']),
                         uncurry_left=c['left'])
    return SpiderAnsatz(ob, max_order=c['order'], uncurry_left=c['left'])


def ask(obj, q):
    if isinstance(q, Ty) and not isinstance(obj, Functor):
        if isinstance(obj, Rewriter):
            return obj(q)
        if hasattr(obj, 'ob_size'):
            return obj.ob_size(q)
        return obj.functor(q)
    return obj(q)


# ------------------------------------------------------- looking at answers
ATTRS = ('name', 'dom', 'cod', 'z', 'data', 'distance', 'bit', 'left',
         'right', 'type', 'n_legs_in', 'n_legs_out', 'is_mixed',
         'self_adjoint', 'controlled', 'box', 'frame', 'components', 'phase')


def look(x):
    """The content of a type, box or diagram as plain data."""
    if isinstance(x, Diagram):
        return ['diagram', look(x.dom), look(x.cod),
                [[look(la.left), look(la.box), look(la.right)]
                 for la in x.layers]]
    if isinstance(x, Ty):
        # the objects of a type, however they are nested
        return [type(x).__name__, str(x), [
            (str(getattr(o, 'label', '') or o.name), o.z) for o in x]
            if not x.is_empty else []]
    if isinstance(x, Box):
        out = [type(x).__name__]
        for a in ATTRS:
            try:
                v = object.__getattribute__(x, a)
            except AttributeError:
                continue
            out.append([a, look(v)])
        return out
    if isinstance(x, (list, tuple)):
        return [look(v) for v in x]
    if isinstance(x, np.ndarray):
        return [str(x.shape), [look(v) for v in x.flatten()]]
    if hasattr(x, 'directed_dom'):
        return ['symbol', x.name, x.directed_dom, x.directed_cod,
                repr(float(x.scale))]
    if isinstance(x, (int, float, complex, np.number)) \
            and not isinstance(x, bool):
        return repr(complex(x))
    if x is None or isinstance(x, (str, bool)):
        return x
    return repr(x)


def outcome(obj, q):
    """(what happened, result)."""
    try:
        res = ask(obj, q)
    except Injected as e:
        return ['raised', 'Injected', str(e)], None
    except KeyboardInterrupt:
        return ['raised', 'KeyboardInterrupt', ''], None
    except Exception as e:
        return ['raised', type(e).__name__, str(e)], None
    return ['answered', look(res)], res


def change(res, how, k):
    """What a caller may do to a result it got; True if it did something."""
    if isinstance(res, Box):
        boxes, layers = [res], None
    elif isinstance(res, Diagram):
        layers = res.layers
        boxes = [la.box for la in layers]
    else:
        return False
    if how == 'layers' and layers:
        if k % 2:
            del layers[k % len(layers)]
        else:
            layers.append(layers[k % len(layers)])
        return True
    if how == 'side' and layers:
        layers[k % len(layers)].left = Ty('changed')
        return True
    if how == 'cod':
        res.cod = Ty('changed')
        return True
    if not boxes:
        return False
    b = boxes[k % len(boxes)]
    if how == 'name':
        b.name = 'changed'
    elif how == 'data':
        if object.__getattribute__(b, '__dict__').get('data') is None:
            return False
        if isinstance(b.data, np.ndarray) and k % 2:
            b.data[...] = 7
        elif hasattr(b.data, 'scale'):
            b.data.scale = 7
        else:
            b.data = 7.0
    else:
        return False
    return True


def tweak(q, k):
    """The caller gives a box of a diagram other data; None if it cannot."""
    boxes = [b for b in (la.box for la in q.layers)
             if type(b) in (T.Box, Q.Rx)]
    if not boxes:
        return False
    b = boxes[k % len(boxes)]
    if isinstance(b.data, np.ndarray):
        b.data[...] = b.data + 1
    else:
        b.data = b.data + 1
    return True


# --------------------------------------------------------------- execution
def expected(case):
    """What a fresh object says when asked only that question."""
    out = {}
    added = []
    for i, op in enumerate(case['ops']):
        if op['op'] == 'add':
            added.append(op['rule'])
            continue
        q = build(case['kind'], case['specs'][op['q']])
        who = op['who']
        key = (op['q'], tuple(added) if who == 0 else (), op.get('tweak'))
        if key not in out:
            if op.get('tweak') is not None and not isinstance(q, Ty):
                tweak(q, op['tweak'])
            obj = make(case, Script(), added if who == 0 else ())
            out[key] = outcome(obj, q)[0]
        op['_key'] = key
    return out


def run(case, ctx):
    kind = case['kind']
    case = {**case, 'ops': [dict(op) for op in case['ops']]}
    if not case['specs']:
        return
    for op in case['ops']:
        if op['op'] == 'ask':
            op['q'] %= len(case['specs'])
    restore_shared()
    want = expected(case)
    restore_shared()
    script = Script()
    shared = None
    if kind == 'rewriter' and case['rules']:
        # both rewriters are given the same rule objects
        shared = [make_rule(n, script) for n in case['rules']]
    objs = [make(case, script, rules=shared), make(case, script,
                                                   rules=shared)]
    inputs, tainted, trail = {}, set(), [kind]
    for i, op in enumerate(case['ops']):
        ctx.steps += 1
        if op['op'] == 'add':
            rule, n = make_rule(op['rule'], script), len(objs[0].rules)
            if op['bogus']:
                # the second rule does not exist, the first one stays
                try:
                    objs[0].add_rules(rule, 'no_such_rule')
                except ValueError:
                    ctx.fault('unknown_rule')
                if len(objs[0].rules) == n:
                    # refused as a whole, which is as good
                    objs[0].add_rules(rule)
            else:
                objs[0].add_rules(rule)
            ctx.probe('rule_added')
            trail.append('add')
            if i:
                ctx.nontrivial = True
            continue
        k = op['q']
        if k in tainted or not op['reuse'] or k not in inputs:
            inputs[k] = build(kind, case['specs'][k])
            tainted.discard(k)
        else:
            ctx.probe('same_input_object')
        q = inputs[k]
        if op.get('tweak') is not None and not isinstance(q, Ty):
            # ask, then change the input itself, then ask again
            outcome(objs[op['who']], q)
            if tweak(q, op['tweak']):
                ctx.fault('input_changed')
            tainted.add(k)
        before = look(q)
        script.arm(op.get('fault'))
        n0 = script.calls
        got, res = outcome(objs[op['who']], q)
        ctx.steps += script.calls - n0
        fired, exp = script.fired, want[op['_key']]
        script.arm(None)
        if fired:
            ctx.fault('mapping_' + fired)
        trail.append((k, op['who'], fired, got[0]))
        ctx.event(i, op['q'], fired, digest(got))
        if i:
            ctx.nontrivial = True
            ctx.probe('asked_after_history')
        what = (f'op {i}: {kind} asked about #{k} '
                f'{str(q)[:80]!r}')
        if fired:
            # Either the failure comes out, or it made no difference.
            if got[0] == 'answered' and got != exp:
                raise Violation(
                    'failure', f'{what}; the mapping failed ({fired}) during '
                    f'this application, yet it answered {diff(exp, got)}')
            if got[0] == 'raised' and fired in ('raise', 'kill') \
                    and got[1] not in ('Injected', 'KeyboardInterrupt') \
                    and got != exp:
                raise Violation(
                    'failure', f'{what}; the mapping raised, but the '
                    f'application ended with {got[1]}: {got[2][:150]}')
        elif got != exp:
            raise Violation(
                'history', f'{what}; a fresh one {describe(exp)}, this one '
                f'{diff(exp, got)} after {trail[1:-1]}')
        if got[0] == 'answered' and look(q) != before:
            raise Violation('input', f'{what} and the input was altered')
        if res is not None and op.get('change'):
            if change(res, *op['change']):
                ctx.fault('result_changed')
                trail.append(op['change'][0])
                # results may share parts with the diagram asked about
                tainted.update(inputs)
    ctx.state(*trail)


def describe(o):
    if o[0] == 'raised':
        return f'raised {o[1]}: {o[2][:120]}'
    return 'answered ' + str(o[1])[:200]


def diff(exp, got):
    if got[0] == 'raised' or exp[0] == 'raised':
        return describe(got)

    def walk(a, b, path):
        if type(a) is not type(b):
            return f'at {path}: {str(a)[:60]} became {str(b)[:60]}'
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return f'at {path}: {len(a)} parts became {len(b)}'
            for j, (x, y) in enumerate(zip(a, b)):
                w = walk(x, y, path + [j])
                if w:
                    return w
            return None
        return None if a == b else f'at {path}: {a!r} became {b!r}'

    return 'something else ' + str(walk(exp[1], got[1], []))
