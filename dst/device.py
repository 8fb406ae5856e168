"""A simulated quantum device: a pytket backend whose jobs are queued,
delayed, reordered and failed by the schedule of a case."""
from __future__ import annotations

from collections import Counter

import numpy as np
from pytket.backends import Backend, CircuitNotRunError, CircuitStatus, \
    ResultHandle, StatusEnum
from pytket.backends.backendresult import BackendResult
from pytket.circuit import Circuit, OpType
from pytket.passes import (AutoRebase, DecomposeBoxes, FullPeepholeOptimise,
                           SequencePass, SynthesiseTket)
from pytket.predicates import GateSetPredicate, NoSymbolsPredicate
from pytket.utils.outcomearray import OutcomeArray


class DeviceError(Exception):
    """Whatever a vendor's client library raises."""


NATIVE = {OpType.TK1, OpType.CX, OpType.Measure, OpType.Barrier}
EXC = {'device': lambda: DeviceError('job failed on the device'),
       'runtime': lambda: RuntimeError('calibration in progress'),
       'timeout': lambda: TimeoutError('no answer from the device'),
       'connection': lambda: ConnectionError('connection to device lost'),
       'notrun': lambda: CircuitNotRunError(ResultHandle(-1)),
       'value': lambda: ValueError('malformed answer'),
       'key': lambda: KeyError('results'),
       'index': lambda: IndexError('list index out of range'),
       'stop': lambda: StopIteration(),
       'interrupt': lambda: KeyboardInterrupt()}


class Job:
    def __init__(self, n, circuit, shots, eps, delay, seed):
        self.n = n
        self.circuit = circuit.copy()
        self.shots = shots
        self.eps = eps
        self.delay = delay
        self.seed = seed
        self.ready = None


class Device(Backend):
    """Answers with the exact distribution, mixed with a share of uniform
    noise that differs from job to job so that answers are recognisable."""

    _supports_counts = True
    _supports_shots = True
    _persistent_handles = False

    def __init__(self, strict, plan, ctx):
        super().__init__()
        self.strict = strict
        self.plan = plan                 # queue behaviour, see below
        self.ctx = ctx
        self.now = 0.0
        self.jobs: list[Job] = []
        self.by_handle: dict = {}
        self.fault = None
        self.fired = False
        self.n_results = 0

    # -- what pytket asks for
    @property
    def required_predicates(self):
        out = [NoSymbolsPredicate()]
        if self.strict:
            out.append(GateSetPredicate(NATIVE))
        return out

    def rebase_pass(self):
        return AutoRebase({OpType.CX, OpType.TK1})

    def default_compilation_pass(self, optimisation_level=2):
        seq = [DecomposeBoxes()]
        if optimisation_level == 1:
            seq.append(SynthesiseTket())
        elif optimisation_level == 2:
            seq.append(FullPeepholeOptimise())
        return SequencePass(seq + [self.rebase_pass()])

    @property
    def _result_id_type(self):
        return (int,)

    # -- faults
    def begin(self, fault):
        """A new evaluation begins; fault: None or [where, k, exception]."""
        self.fault = fault
        self.fired = False
        self.n_results = 0
        return len(self.jobs)

    def _fail(self, where, k):
        if (self.fault and not self.fired and self.fault[0] == where
                and k == self.fault[1]):
            self.fired = True
            self.ctx.fault(f'device_{where}_{self.fault[2]}')
            raise EXC[self.fault[2]]()

    # -- running
    def process_circuits(self, circuits, n_shots=None, valid_check=True,
                         **kwargs):
        circuits = list(circuits)
        shots = (list(n_shots) if hasattr(n_shots, '__iter__')
                 else [n_shots] * len(circuits))
        self._fail('submit', 0)
        self._check_all_circuits(circuits)
        handles = []
        for k, (c, s) in enumerate(zip(circuits, shots)):
            if k:
                self._fail('submit', k)
            n = len(self.jobs)
            spread = self.plan['noise']
            eps = spread * (((n * 7) % 13) / 13)
            delay = self.plan['delays'][n % len(self.plan['delays'])]
            job = Job(n, c, s, eps, delay, kwargs.get('seed'))
            self.jobs.append(job)
            h = ResultHandle(n)
            self.by_handle[h] = job
            handles.append(h)
            self.ctx.steps += 1
        # the queue: jobs of one submission finish in the planned order
        batch = [self.by_handle[h] for h in handles]
        order = sorted(range(len(batch)),
                       key=lambda k: (batch[k].delay, -k))
        t = self.now
        for k in order:
            t += 1 + batch[k].delay
            batch[k].ready = t
        if order != list(range(len(batch))):
            self.ctx.fault('device_reordered')
        if any(j.delay for j in batch):
            self.ctx.fault('device_delayed')
        return handles

    def circuit_status(self, handle):
        job = self.by_handle.get(handle)
        if job is None:
            raise CircuitNotRunError(handle)
        self.now += 1                    # polling takes time
        if job.ready <= self.now:
            return CircuitStatus(StatusEnum.COMPLETED)
        return CircuitStatus(StatusEnum.QUEUED)

    def get_result(self, handle, **kwargs):
        k = self.n_results
        self.n_results += 1
        self._fail('result', k)
        job = self.by_handle.get(handle)
        if job is None:
            raise CircuitNotRunError(handle)
        if job.ready > self.now:
            self.ctx.sim_time += job.ready - self.now
            self.now = job.ready
        return self._measure(job)

    def empty_cache(self):
        super().empty_cache()
        self.by_handle.clear()

    def pop_result(self, handle):
        self.by_handle.pop(handle, None)
        return super().pop_result(handle)

    def _measure(self, job):
        bare = Circuit()
        for q in job.circuit.qubits:
            bare.add_qubit(q)
        measured = {}
        for cmd in job.circuit.get_commands():
            if cmd.op.type == OpType.Measure:
                measured[cmd.bits[0]] = cmd.qubits[0]
            elif cmd.op.type != OpType.Barrier:
                bare.add_gate(cmd.op, cmd.qubits)
        probs = np.abs(bare.get_statevector()) ** 2
        qubits = list(bare.qubits)       # increasing order, as pytket sorts
        probs = probs.reshape([2] * len(qubits))
        bits = sorted(measured)
        axes = [qubits.index(measured[b]) for b in bits]
        rest = tuple(i for i in range(len(qubits)) if i not in axes)
        probs = probs.sum(axis=rest) if rest else probs
        probs = np.transpose(probs, np.argsort(np.argsort(axes)))
        flat = probs.reshape(-1)
        flat = flat / flat.sum()
        flat = (1 - job.eps) * flat + job.eps / flat.size
        counts = np.floor(flat * job.shots).astype(int)
        short = job.shots - counts.sum()
        for i in np.argsort(-(flat * job.shots - counts),
                            kind='stable')[:short]:
            counts[i] += 1
        order = list(range(len(bits)))
        if self.plan['bit_order'] == 'reversed':
            order.reverse()              # the device names its bits its way
        c = Counter()
        for i, n in enumerate(counts):
            if n:
                b = [(i >> (len(bits) - 1 - j)) & 1 for j in range(len(bits))]
                c[tuple(b[j] for j in order)] = int(n)
        if not bits:
            return BackendResult(counts=Counter(
                {OutcomeArray.from_readouts([[]]): job.shots}), c_bits=[])
        return BackendResult(
            counts=Counter({OutcomeArray.from_readouts([list(k)]): v
                            for k, v in c.items()}),
            c_bits=[bits[j] for j in order])
