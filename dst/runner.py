"""Runs a property's simulations over a pool of forked workers."""
from __future__ import annotations

from collections import Counter
import hashlib
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import traceback

from dst import core
from dst.core import Ctx, HarnessError, SimKill, Violation
from dst.seams import real

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def now():
    return real.monotonic()


class RunTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise RunTimeout()


def execute(prop, case, limit=120):
    """Executes one case.  Returns a plain dict."""
    ctx = Ctx()
    out = {'violation': None, 'error': None}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        prop.run(json.loads(json.dumps(case)), ctx)
    except Violation as v:
        out['violation'] = {'rule': v.rule, 'message': v.message,
                            'detail': v.detail}
    except RunTimeout:
        out['error'] = f'run exceeded {limit} s of real time'
    except HarnessError as e:
        out['error'] = 'HarnessError: ' + str(e)
    except SimKill as e:
        out['error'] = 'stray SimKill: ' + traceback.format_exc()[-1500:]
    except BaseException as e:
        out['error'] = f'{type(e).__name__}: ' + traceback.format_exc()[-2500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        prop.cleanup() if hasattr(prop, 'cleanup') else None
    out.update(faults=dict(ctx.faults), probes=dict(ctx.probes),
               sim_time=ctx.sim_time, states=sorted(ctx.states),
               steps=ctx.steps, nontrivial=ctx.nontrivial,
               log=ctx.log_digest())
    if ctx.log and case.get('_keep_log'):
        out['events'] = ctx.log
    return out


BLOCK = 25


def one_run(prop, seed, tier, i):
    try:
        case = prop.gen(core.rng_for(prop.ID, seed, i), i, tier)
        case['_id'] = [seed, i]
        out = execute(prop, case)
    except BaseException:
        out = {'violation': None, 'error': traceback.format_exc(),
               'faults': {}, 'probes': {}, 'sim_time': 0,
               'states': [], 'steps': 0, 'nontrivial': False,
               'log': ''}
        case = {'_id': [seed, i]}
    return case, out


def block_size(prop):
    return getattr(prop, 'BLOCK', BLOCK)


def quiet_child():
    sys.unraisablehook = lambda *a: None
    devnull = real.os_open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(devnull, 2)


def _worker(prop, seed, tier, blocks, total, deadline, wfd):
    """Runs blocks of runs, each in a fresh process forked from this one, in
    which nothing of lambeq has run: what run i finds in the process depends
    on the runs before it in its block only, and not on how many workers
    there are."""
    os.setpgid(0, 0)
    f = os.fdopen(wfd, 'wb')
    size = block_size(prop)
    try:
        quiet_child()
        for b in blocks:
            if now() > deadline:
                break
            pid = os.fork()
            if pid == 0:
                try:
                    for i in range(b * size, min(total, (b + 1) * size)):
                        if now() > deadline:
                            break
                        case, out = one_run(prop, seed, tier, i)
                        pickle.dump((i, case, out), f)
                        f.flush()
                finally:
                    os._exit(0 if sys.exc_info()[0] is None else 3)
            _, status = os.waitpid(pid, 0)
            if status:
                pickle.dump((-1 - b, {}, {
                    'violation': None,
                    'error': f'the process of block {b} ended with {status}',
                    'faults': {}, 'probes': {}, 'sim_time': 0, 'states': [],
                    'steps': 0, 'nontrivial': False, 'log': ''}), f)
                f.flush()
        pickle.dump(None, f)
        f.flush()
    finally:
        os._exit(0)


def fan_out(prop, seed, tier, total, deadline, workers, stop_after=3):
    """Yields (i, case, out) in completion order."""
    import selectors
    sel = selectors.DefaultSelector()
    procs = []
    for w in range(workers):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for (_, rr, _) in procs:
                try:
                    os.close(rr)
                except OSError:
                    pass
            _worker(prop, seed, tier,
                    range(w, -(-total // block_size(prop)), workers), total,
                    deadline, wr)
        os.close(wr)
        procs.append((pid, r, w))
        sel.register(r, selectors.EVENT_READ, {'buf': b'', 'pid': pid,
                                               'done': False, 'w': w})
    live = len(procs)
    nviol = 0
    lost = []
    try:
        while live:
            for key, _ in sel.select(timeout=5):
                st = key.data
                chunk = os.read(key.fd, 1 << 20)
                if not chunk:
                    if not st['done']:
                        lost.append(st['w'])
                    sel.unregister(key.fd)
                    os.close(key.fd)
                    live -= 1
                    continue
                st['buf'] += chunk
                while True:
                    import io
                    bio = io.BytesIO(st['buf'])
                    try:
                        item = pickle.load(bio)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    st['buf'] = st['buf'][bio.tell():]
                    if item is None:
                        st['done'] = True
                        continue
                    yield item
                    if item[2]['violation']:
                        nviol += 1
            if nviol >= stop_after:
                break
            if now() > deadline + 150:
                break
    finally:
        for pid, _, _ in procs:
            for kill in (os.killpg, os.kill):
                try:
                    kill(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
    if lost:
        yield (-1, {}, {'violation': None,
                        'error': f'workers {lost} ended unexpectedly',
                        'faults': {}, 'probes': {}, 'sim_time': 0,
                        'states': [], 'steps': 0, 'nontrivial': False,
                        'log': ''})


def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with real.open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    out.append(json.loads(line))
    return out


def matches(finding, prop_id, v):
    return (finding.get('status') == 'known'
            and finding['property'] == prop_id
            and finding['rule'] == v['rule']
            and finding.get('match', '') in v['message'])


def prepare(prop):
    # libraries that lambeq imports when it first needs them
    for m in getattr(prop, 'IMPORTS', []):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    if hasattr(prop, 'prepare'):
        prop.prepare()


def check(prop, tier, seed, workers=None, quiet=False):
    t0 = now()
    total = prop.RUNS[tier]
    limit = getattr(prop, 'LIMIT', {}).get(
        tier, 420 if tier == 'quick' else 5400)
    if os.environ.get('DST_RUNS'):
        total = int(os.environ['DST_RUNS'])
    workers = workers or int(os.environ.get('DST_WORKERS', 0)) or min(
        8, os.cpu_count() or 1, len(os.sched_getaffinity(0)))
    prepare(prop)
    faults, probes = Counter(), Counter()
    states, logs = set(), set()
    sim_time = 0.0
    steps = evals = nontriv = 0
    errors, violations, samples = [], [], []
    digests = {}
    for i, case, out in fan_out(prop, seed, tier, total, t0 + limit, workers):
        if out['error']:
            errors.append((i, out['error'], case))
            continue
        evals += 1
        faults.update(out['faults'])
        probes.update(out['probes'])
        states.update(out['states'])
        digests[i] = out['log']
        sim_time += out['sim_time']
        steps += out['steps']
        if out['nontrivial'] and out['log'] not in logs:
            nontriv += 1
        logs.add(out['log'])
        if len(samples) < 3 and out['nontrivial']:
            samples.append({k: v for k, v in case.items()})
        if out['violation']:
            violations.append((i, case, out['violation']))
    violations.sort(key=lambda t: t[0])
    extra = {}
    if hasattr(prop, 'extra_checks'):
        extra, more = prop.extra_checks(tier, seed)
        violations.extend(more)

    known, fresh = [], []
    kf = known_findings()
    for i, case, v in violations:
        hit = next((k for k in kf if matches(k, prop.ID, v)), None)
        (known if hit else fresh).append((i, case, v, hit))

    replay = None
    if fresh:
        i, case, v, _ = fresh[0]
        replay = minimise_and_save(prop, case, v, seed, tier)

    wall = now() - t0
    hours = max(wall, 1e-6) / 3600
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': nontriv,
        'rule': prop.RULE,
        'samples': samples,
        'runs_requested': total,
        'runs_per_hour': round(evals / hours),
        'seeding': 'one seed per run, derived from (property, VERIF_SEED, run number)',
        'simulated_seconds': round(sim_time, 3),
        'simulated_steps': steps,
        'faults_injected': dict(sorted(faults.items())),
        'probes_reached': dict(sorted(probes.items())),
        'distinct_states': len(states),
        'distinct_state_measure': prop.STATE_MEASURE,
        'distinct_executions': len(logs),
        'components_real': prop.REAL,
        'components_stubbed': prop.STUB,
        'harness_errors': len(errors),
        'known_findings_hit': len(known),
        'workers': workers,
        'execution_digest': hashlib.sha256(json.dumps(
            sorted(digests.items())).encode()).hexdigest()[:16],
    }
    cov.update(extra)
    ev = {'property': prop.ID, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': prop.ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with real.open(os.path.join(VERIF, 'evidence', prop.ID + '.json'),
                   'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for hit in {json.dumps(k[3], sort_keys=True) for k in known}:
        print(f'KNOWN-FINDING: property={prop.ID} '
              f'{json.loads(hit)["what"]}')
    print(f'{prop.ID} {tier} seed={seed}: {evals} runs ({nontriv} distinct '
          f'non-trivial) in {wall:.1f}s, faults={dict(faults)}, '
          f'states={len(states)}, errors={len(errors)}')
    if fresh:
        i, case, v, _ = fresh[0]
        print(f'  run {i}: {v["rule"]}: {v["message"]}')
        for j, _, w, _ in fresh[1:4]:
            print(f'  run {j}: {w["rule"]}: {w["message"][:200]}')
        print(f'VIOLATION property={prop.ID} replay={replay}')
        return 1
    if errors:
        for i, e, c in errors[:3]:
            print(f'HARNESS-ERROR run {i}: {e}', file=sys.stderr)
        if len(errors) > max(2, evals // 20):
            return 2
    if evals == 0:
        return 2
    return 0


def in_child(work):
    """work() in a process forked from this one; None if that dies."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            quiet_child()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(work(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def alone(prop, before, case, limit=60):
    """Executes the case in a fresh process, after the runs that came before
    it."""
    def work():
        for seed, i, tier in before:
            one_run(prop, seed, tier, i)
        return execute(prop, case, limit)
    return in_child(work)


def minimise_and_save(prop, case, v, seed, tier):
    rule = v['rule']
    deadline = now() + getattr(prop, 'MINIMISE_S', 60)
    before = []

    def fails(c):
        out = alone(prop, before, c)
        return bool(out and out['violation']
                    and out['violation']['rule'] == rule)

    small, tried, events = case, 0, None
    ok = fails(case)
    if not ok and case.get('_id'):
        # does it need what earlier runs left behind in the process?
        i = case['_id'][1]
        size = block_size(prop)
        before = [[seed, j, tier] for j in range(i // size * size, i)]
        ok = bool(before) and fails(case)
        k = len(before)
        while ok and k and now() < deadline:
            for a in range(0, len(before), k):
                whole, before = before, before[:a] + before[a + k:]
                if fails(case):
                    break
                before = whole
            else:
                k //= 2
        if not ok:
            before = []
    if ok:
        shr = getattr(prop, 'shrinks', None) or (
            lambda c: core.generic_shrinks(c, prop.SHRINK_LISTS))
        small, tried = core.minimise(case, fails, shr, 400, deadline, now)
        out = alone(prop, before, dict(small, _keep_log=True))
        if out:
            v, events = out['violation'] or v, out.get('events')
    small = {k: x for k, x in small.items() if k != '_keep_log'}
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(
        VERIF, 'replays', f'{prop.ID}-{core.digest(small)}.json')
    with real.open(path, 'w') as f:
        json.dump({'property': prop.ID, 'rule': v['rule'],
                   'message': v['message'], 'seed': seed, 'tier': tier,
                   'run': case.get('_id'), 'case': small,
                   'runs_before': before, 'reproduced': ok,
                   'original_case': case, 'shrink_attempts': tried,
                   'events': events[-200:] if events else None,
                   'reproduce': f'python3 check.py {prop.ID} '
                                f'--replay {os.path.relpath(path, VERIF)}'},
                  f, indent=1, default=repr)
    return os.path.relpath(path, VERIF)


def replay(prop, path):
    with real.open(path) as f:
        rec = json.load(f)
    prepare(prop)
    out = alone(prop, rec.get('runs_before') or [],
                dict(rec['case'], _keep_log=True), limit=300)
    if out is None:
        print('HARNESS-ERROR the process of the replay died')
        return 2
    for e in out.get('events') or []:
        print('  ', *e)
    if out['error']:
        print('HARNESS-ERROR', out['error'])
        return 2
    if out['violation'] is None:
        print('replay: property held')
        return 0
    v = out['violation']
    print(f'{v["rule"]}: {v["message"]}')
    same = v['rule'] == rec['rule']
    print(f'replay reproduces the recorded rule: {same}')
    print(f'VIOLATION property={prop.ID} replay={path}')
    return 1
