"""P18: results from a quantum device belong to the circuits sent."""
import os

import numpy as np

from dst import device as D
from dst.core import Guard, Violation, digest, rng_for
from dst.train import Scratch

from lambeq import (AtomicType, IQPAnsatz, Sim4Ansatz, Sim14Ansatz,
                    Sim15Ansatz, StronglyEntanglingAnsatz, TketModel)
from lambeq.backend.grammar import Cup, Id as GId, Word
from lambeq.backend.quantum import (
    Bra, CCX, Controlled, CRx, CRy, CRz, CX, CZ, Discard, H, Id, Ket, Measure,
    qubit, Rx, Ry, Rz, S, Scalar, SWAP, T, X, Y, Z)
from lambeq.backend.symbol import Symbol

ID = 'P18'
RUNS = {'quick': 2500, 'thorough': 150000}
IMPORTS = ['discopy']
RULE = ('A case is a set of circuits and a history of evaluations of batches '
        'of them (through a model or directly) on a simulated device that '
        'delays and reorders jobs and fails at chosen submissions and '
        'results, each failed evaluation being retried; non-trivial when a '
        'fault fired or jobs finished out of order.')
STATE_MEASURE = ('(batch of circuit shapes, how evaluated, where and how the '
                 'device failed, order of completion)')
REAL = ['TketModel', 'quantum.Diagram.eval', 'converters.tk', 'ansaetze',
        'pytket compilation passes and result objects']
STUB = ['quantum device (pytket Backend): exact distribution mixed with '
        'job-specific uniform noise, rounded to the number of shots']
ASSUMPTIONS = [
    'Circuits use gates the t|ket> converter supports and have at least one '
    'measured or post-selected qubit.',
    'Tolerances follow from rounding to whole shots.']
SHRINK_LISTS = {'ops', 'batch', 'gates', 'circuits'}

ONE = {'H': H, 'X': X, 'Y': Y, 'Z': Z, 'S': S, 'T': T}
ROT = {'Rx': Rx, 'Ry': Ry, 'Rz': Rz, 'CRx': CRx, 'CRy': CRy, 'CRz': CRz}
ANSATZ = {'iqp': IQPAnsatz, 'sim4': Sim4Ansatz, 'sim14': Sim14Ansatz,
          'sim15': Sim15Ansatz, 'strong': StronglyEntanglingAnsatz}
N, SENT = AtomicType.NOUN, AtomicType.SENTENCE


# ------------------------------------------------------------- generation
def gen_circuit(r, n_open=None):
    k = n_open if n_open is not None else r.choice([0, 1, 1, 2, 2, 3])
    if r.random() < 0.3 and k in (0, 1, 2):
        return {'ansatz': r.choice(sorted(ANSATZ)), 'open': k,
                'layers': r.choice([1, 1, 2]),
                'words': [r.choice('ABCD'), r.choice('vw'), r.choice('AB')]
                [:r.choice([2, 3])]}
    n = max(1, k + r.choice([0, 1, 1, 2]))
    n = min(n, 4)
    gates = []
    for _ in range(r.choice([1, 3, 5, 8])):
        name = r.choice(['H', 'H', 'X', 'Y', 'Z', 'S', 'T', 'Rx', 'Ry', 'Rz',
                         'Rx', 'CX', 'CX', 'CZ', 'CRx', 'CRy', 'CRz', 'CCX',
                         'SWAP'])
        w = 3 if name == 'CCX' else (2 if name[0] == 'C' or name == 'SWAP'
                                     else 1)
        if w > n:
            continue
        q = r.sample(range(n), w)
        if name == 'SWAP':
            a = r.randrange(n - 1)
            q = [a, a + 1]
        g = [name, q]
        if name in ROT:
            if r.random() < 0.6:
                g.append(['sym', r.randrange(4), r.choice([1, 1, 2, -0.5])])
            else:
                g.append(['val', r.choice([0, 0.0, 0.25, -0.3, 1,
                                           round(r.random(), 3)])])
        if name in ('S', 'T') and r.random() < 0.4:
            g.append('dg')
        gates.append(g)
    ends = ['open'] * k + [r.choice(['bra0', 'bra0', 'bra1', 'discard'])
                           for _ in range(n - k)]
    r.shuffle(ends)
    if k == 0:
        # with nothing measured the device has nothing to report
        ends[r.randrange(n)] = r.choice(['bra0', 'bra1'])
    return {'kets': [r.randrange(2) for _ in range(n)], 'gates': gates,
            'ends': ends, 'scalar': r.choice([None, None, 0.5, 2, 1.4])}


def gen(r, i, tier):
    k = r.choice([0, 1, 1, 2])
    same = [gen_circuit(r, k) for _ in range(r.choice([1, 2, 3, 4]))]
    other = [gen_circuit(r) for _ in range(r.choice([0, 1, 2]))]
    ops = []
    for _ in range(r.choice([1, 2, 3, 4])):
        x = r.random()
        if x < 0.15:
            ops.append({'op': 'weights', 'seed': r.randrange(99),
                        'zero': r.random() < 0.3})
            continue
        if x < 0.22:
            ops.append({'op': 'reload'})
            continue
        how = 'model' if r.random() < 0.6 else 'eval'
        pool = len(same) + (len(other) if how == 'eval' else 0)
        b = [r.randrange(pool) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        op = {'op': 'call', 'how': how, 'batch': b}
        if r.random() < 0.5:
            where = r.choice(['submit', 'result', 'result'])
            op['fault'] = [where, r.randrange(len(b)),
                           r.choice(sorted(D.EXC))]
        ops.append(op)
    return {'circuits': same + other, 'n_same': len(same), 'ops': ops,
            'wseed': r.randrange(99),
            'shots': r.choice([100, 1000, 4096, 50000, 200000]),
            'compile': r.choice([0, 1, 2]),
            'strict': r.random() < 0.7,
            'plan': {'noise': r.choice([0, 0.3, 0.6]),
                     'delays': [r.choice([0, 0, 1, 5, 60])
                                for _ in range(r.choice([1, 3, 5]))],
                     'bit_order': r.choice(['plain', 'reversed'])}}


# ----------------------------------------------------- circuits and oracle
class Spec:
    """One circuit: its lambeq diagram and its exact outcome."""

    def __init__(self, spec):
        self.spec = spec
        if 'ansatz' in spec:
            w = spec['words']
            verb = N.r @ SENT if len(w) == 2 else N.r @ SENT @ N.l
            d = Word(w[0], N) @ Word(w[1] + str(len(w)), verb)
            if len(w) == 3:
                d = d @ Word(w[2], N)
                d = d >> Cup(N, N.r) @ GId(SENT) @ Cup(N.l, N)
            else:
                d = d >> Cup(N, N.r) @ GId(SENT)
            self.diagram = ANSATZ[spec['ansatz']](
                {N: 1, SENT: spec['open']}, n_layers=spec['layers'])(d)
            self.n_open = len(self.diagram.cod)
            self.scalar = float(np.prod(
                [abs(complex(b.array)) ** 2 for b in self.diagram.boxes
                 if isinstance(b, Scalar)]))
            # every word state and cup is post-selected on all its qubits
            self.n_bits = None
        else:
            self.diagram = self.build()
            self.scalar = scalar_of(spec)
            self.n_open = spec['ends'].count('open')
            self.n_bits = self.n_open + sum(
                e.startswith('bra') for e in spec['ends'])

    def build(self):
        s = self.spec
        d = Id()
        for b in s['kets']:
            d = d @ Ket(b)
        for g in s['gates']:
            name, q = g[0], g[1]
            dg = g[-1] == 'dg'
            if name in ONE:
                box = ONE[name]
            elif name in ROT:
                kind, *v = g[2]
                box = ROT[name](v[0] if kind == 'val'
                                else Symbol(f's{v[0]}', scale=v[1]))
            else:
                box = {'CX': CX, 'CZ': CZ, 'CCX': CCX, 'SWAP': SWAP}[name]
            if dg:
                box = box.dagger()
            d = d.apply_gate(box, *q)
        end = Id()
        for e in s['ends']:
            end = end @ {'open': Id(qubit), 'bra0': Bra(0), 'bra1': Bra(1),
                         'discard': Discard()}[e]
        d = d >> end
        if s['scalar'] is not None:
            d = d @ Scalar(s['scalar'])
        return d

    def exact(self, weights):
        """Unnormalised outcome distribution over the open qubits and the
        number of bits the device measures."""
        if 'ansatz' in self.spec:
            syms = sorted(self.diagram.free_symbols)
            c = self.diagram
            if syms:
                c = c.lambdify(*syms)(*[weights[x.name] for x in syms])
            amp = np.asarray(c.eval())
            n = sum(len(b.dom) for b in c.boxes if isinstance(b, Bra))
            return np.abs(amp) ** 2, n + len(c.cod)
        return simulate(self.spec, weights), self.n_bits


def mat(name, theta, dg):
    c, s = np.cos(np.pi * theta), np.sin(np.pi * theta)
    m = {'H': [[2 ** -.5, 2 ** -.5], [2 ** -.5, -2 ** -.5]],
         'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]],
         'Z': [[1, 0], [0, -1]], 'S': [[1, 0], [0, 1j]],
         'T': [[1, 0], [0, np.exp(.25j * np.pi)]],
         'Rx': [[c, -1j * s], [-1j * s, c]], 'Ry': [[c, -s], [s, c]],
         'Rz': [[c - 1j * s, 0], [0, c + 1j * s]]}[name]
    m = np.array(m, complex)
    return m.conj().T if dg else m


def simulate(spec, weights):
    n = len(spec['kets'])
    state = np.zeros([2] * n, complex)
    state[tuple(spec['kets'])] = 1
    for g in spec['gates']:
        name, q = g[0], g[1]
        theta = 0
        if len(g) > 2 and g[2] != 'dg':
            kind, *v = g[2]
            theta = v[0] if kind == 'val' else weights[f's{v[0]}'] * v[1]
        if name == 'SWAP':
            state = np.swapaxes(state, *q)
            continue
        base = name.lstrip('C')
        m = mat(base, theta, g[-1] == 'dg')
        *ctl, tgt = q
        idx = [slice(None)] * n
        for c in ctl:
            idx[c] = slice(1, 2)
        sub = state[tuple(idx)]
        new = np.moveaxis(np.tensordot(m, sub, (1, tgt)), 0, tgt)
        state = state.copy()
        state[tuple(idx)] = new
    p = np.abs(state) ** 2
    for a in reversed(range(n)):
        e = spec['ends'][a]
        if e == 'discard':
            p = p.sum(axis=a)
        elif e != 'open':
            p = np.take(p, int(e[-1]), axis=a)
    if spec['scalar'] is not None:
        p = p * abs(spec['scalar']) ** 2
    return p


def scalar_of(spec):
    s = spec.get('scalar')
    return 1.0 if s is None else abs(s) ** 2


class Run:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.specs = []
        for c in case['circuits']:
            self.specs.append(Spec(c))
        self.device = D.Device(case['strict'], case['plan'], ctx)
        self.cfg = {'backend': self.device, 'shots': case['shots'],
                    'compilation':
                        self.device.default_compilation_pass(case['compile'])}
        names = {s.name for sp in self.specs for s in sp.diagram.free_symbols}
        # a model needs at least one symbol
        self.extra = Spec({'kets': [0], 'ends': ['open'], 'scalar': None,
                           'gates': [['Rx', [0], ['sym', 0, 1]]]})
        self.names = sorted(names | {'s0'})
        self.set_weights(case['wseed'], False)
        self.model = self.new_model()
        self.push()

    def new_model(self):
        return TketModel.from_diagrams(
            [sp.diagram for sp in self.specs] + [self.extra.diagram],
            backend_config=self.cfg)

    def set_weights(self, seed, zero):
        r = rng_for('w', seed)
        self.weights = {n: round(r.random() * 2 - 0.7, 4)
                        for n in self.names}
        if zero:
            for n in self.names:
                if r.random() < 0.5:
                    self.weights[n] = 0.0

    def push(self):
        self.model.weights = np.array(
            [self.weights[s.name] for s in self.model.symbols])

    # -- judging an evaluation
    def judge(self, op, out, first):
        case, dev = self.case, self.device
        jobs = dev.jobs[first:]
        b = op['batch']
        if len(jobs) != len(b):
            raise Violation('submissions', f'{len(b)} circuits evaluated, '
                            f'{len(jobs)} submitted to the device')
        for j in jobs:
            if j.shots != case['shots']:
                raise Violation('shots', f'{case["shots"]} shots configured, '
                                f'a circuit was run with {j.shots}')
            if op['how'] == 'eval' and j.seed != 3:
                raise Violation('seed', 'the caller asked for seed 3, a '
                                f'circuit was run with {j.seed}')
        if op['how'] == 'eval':
            outs = [out] if len(b) == 1 else list(out)
        else:
            outs = list(np.asarray(out))
        if len(outs) != len(b):
            raise Violation('results', f'{len(b)} circuits evaluated, '
                            f'{len(outs)} results returned')
        match = []
        for k, (c, o) in enumerate(zip(b, outs)):
            spec = self.specs[c]
            p, n_bits = spec.exact(self.weights)
            o = np.asarray(o)
            if o.shape != p.shape:
                raise Violation('shape', f'result {k} has shape {o.shape}, '
                                f'expected {p.shape}')
            ok = [j.n - first for j in jobs
                  if self.explains(p, n_bits, spec, j, o, op['how'])]
            if not ok:
                raise Violation(
                    'wrong_result', f'result {k} of {len(b)} ({op["how"]}) '
                    f'is {np.round(o, 4).tolist()}, which no job of this '
                    f'evaluation measured for its circuit (exact: '
                    f'{np.round(p, 4).tolist()})')
            match.append(ok)
        if not assignable(match):
            raise Violation('shared_result', 'two results of one evaluation '
                            f'come from the same job (candidates {match})')

    def explains(self, p, n_bits, spec, job, o, how):
        sc = spec.scalar
        want = (1 - job.eps) * p + sc * job.eps / 2 ** n_bits
        tol = sc * 1.01 / job.shots + 1e-6
        if how == 'eval':
            return bool(np.all(np.abs(o - want) <= tol))
        if not want.shape:
            return bool(np.abs(o - want) <= tol)
        tot = want.sum()
        if tot <= 4 * want.size * tol:
            # too little survives the post-selection to judge
            return bool(np.all(np.isfinite(o)))
        lim = (1 + want.size) * tol / (tot - want.size * tol)
        return bool(np.all(np.abs(o - want / tot) <= lim + 1e-6))

    def evaluate(self, op):
        ds = [self.specs[c].diagram for c in op['batch']]
        if op['how'] == 'model':
            return self.model(ds)
        conc = []
        for d in ds:
            syms = sorted(d.free_symbols)
            if syms:
                d = d.lambdify(*syms)(*[self.weights[s.name] for s in syms])
            if len(d.cod):
                m = Id()
                for _ in range(len(d.cod)):
                    m = m @ Measure()
                d = d >> m
            conc.append(d)
        return conc[0].eval(*conc[1:], backend=self.device,
                            n_shots=self.case['shots'],
                            compilation=self.cfg['compilation'], seed=3)

    def call(self, op):
        dev, ctx = self.device, self.ctx
        before = [repr(sp.diagram) for sp in self.specs]
        w = np.array(self.model.weights)
        if op.get('fault'):
            first = dev.begin(op['fault'])
            out = err = None
            try:
                out = self.evaluate(op)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = dev.fired
            ctx.event('fault', op['fault'], fired, type(err).__name__)
            if fired:
                ctx.nontrivial = True
                if err is None:
                    raise Violation(
                        'swallowed', f'the device failed ({op["fault"]}) but '
                        f'the evaluation returned {np.shape(out)}')
                if (op['fault'][2] == 'interrupt'
                        and not isinstance(err, KeyboardInterrupt)):
                    raise Violation('interrupt', 'an interrupt while waiting '
                                    f'became {type(err).__name__}: {err}')
                ctx.probe('failed_evaluation')
            else:
                if err is not None:
                    raise Violation(
                        'call_failed', f'evaluation raised '
                        f'{type(err).__name__}: {str(err)[:200]}') from err
                self.judge(op, out, first)
                return
        first = dev.begin(None)
        with Guard('call_failed', f'evaluating {len(op["batch"])} circuits '
                   f'({op["how"]})'):
            out = self.evaluate(op)
        self.judge(op, out, first)
        ctx.event('ok', op['how'], len(op['batch']),
                  digest(np.round(np.asarray(out, float), 6).tolist()
                         if op['how'] == 'model' else len(op['batch'])))
        if op['how'] == 'model' and not np.array_equal(
                w, self.model.weights):
            raise Violation('weights', 'an evaluation changed the weights')
        if before != [repr(sp.diagram) for sp in self.specs]:
            raise Violation('circuits', 'an evaluation changed the circuits')
        ctx.state(op['how'], [self.shape(c) for c in op['batch']],
                  op.get('fault'), self.case['compile'], self.case['plan'])

    def shape(self, c):
        s = self.specs[c].spec
        if 'ansatz' in s:
            return (s['ansatz'], s['open'])
        return (len(s['gates']), tuple(s['ends']))


def assignable(match):
    used = {}

    def put(k, seen):
        for j in match[k]:
            if j in seen:
                continue
            seen.add(j)
            if j not in used or put(used[j], seen):
                used[j] = k
                return True
        return False
    return all(put(k, set()) for k in range(len(match)))


def run(case, ctx):
    case = dict(case)
    n = len(case['circuits'])
    if not n:
        return
    with Scratch() as tmp:
        x = Run(case, ctx)
        for op in case['ops']:
            if op['op'] == 'weights':
                x.set_weights(op['seed'], op['zero'])
                x.push()
            elif op['op'] == 'reload':
                p = os.path.join(tmp, 'm.lt')
                x.model.save(p)
                x.model = x.new_model()
                x.model.load(p)
            elif op['op'] == 'call':
                same = min(case['n_same'], n)
                op = dict(op, batch=[c for c in op['batch']
                                     if c < (same if op['how'] == 'model'
                                             else n)])
                if op['batch']:
                    x.call(op)
        if any(k.startswith('device_') for k in ctx.faults):
            ctx.nontrivial = True
