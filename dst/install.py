"""A model server, a parser start and the history engine of P07 and P08."""
from __future__ import annotations

import gzip
import hashlib
import io
import os
from pathlib import Path
import random
import tarfile
import tempfile

from dst import net
from dst.core import HarnessError, SimKill, Violation
from dst.seams import SimClock, SimDisk, bypass, real

from lambeq.text2diagram.model_based_reader.base import ModelBasedReader

net.install()
NAMES = ['config.json', 'model.safetensors', 'pytorch_model.bin',
         'tokenizer.json', 'vocab.txt', 'pipeline_config.json',
         'sub/grammar.json', 'sub/deep/tags.txt', 'special tokens.json',
         'added_tokens.json', 'empty.txt']


def blob(seed, size):
    return random.Random(seed).randbytes(size)


class Release:
    def __init__(self, spec):
        self.version = spec['version']
        self.files = {n: blob(f'{s}', z) for n, (s, z) in
                      spec['files'].items()}
        raw = io.BytesIO()
        with tarfile.open(fileobj=raw, mode='w') as t:
            dirs = set()
            for n in sorted(self.files):
                d = os.path.dirname(n)
                parts = d.split('/') if d else []
                for j in range(len(parts)):
                    p = '/'.join(parts[:j + 1])
                    if p not in dirs:
                        dirs.add(p)
                        ti = tarfile.TarInfo('./' + p)
                        ti.type = tarfile.DIRTYPE
                        ti.mode = 0o755
                        t.addfile(ti)
                ti = tarfile.TarInfo('./' + n)
                ti.size = len(self.files[n])
                ti.mode = 0o644
                t.addfile(ti, io.BytesIO(self.files[n]))
        self.tar = gzip.compress(raw.getvalue(), 1, mtime=0)
        self.good = not spec.get('broken')
        if spec.get('broken') == 'tar':
            self.tar = self.tar[:max(30, len(self.tar) * 2 // 3)]
        elif spec.get('broken') == 'not_tar':
            self.tar = blob('x', 200)
        self.checksum = hashlib.sha256(self.tar).hexdigest()
        if spec.get('broken') == 'checksum':
            self.checksum = hashlib.sha256(b'other').hexdigest()
        self.chunked = spec.get('chunked')


class Server:
    def __init__(self, model, releases):
        self.model = model
        self.releases = releases
        self.latest = 0
        self.live = {'tar': 0, 'sum': 0, 'ver': 0}

    def publish(self, k, part=None):
        """Makes release k the latest: all files at once, or only one of
        them (tarball first, then checksum, then version)."""
        for p in [part] if part else ['tar', 'sum', 'ver']:
            self.live[p] = k
        self.latest = self.live['ver']

    def handle(self, method, path, query, headers, body, k):
        base = f'/models/{self.model}/latest/'
        if method != 'GET' or not path.startswith(base):
            return 404, {}, b'<html>not found</html>'
        name = path[len(base):]
        if name == 'version.txt':
            text = self.releases[self.live['ver']].version + '\n'
            return 200, {'content-type': 'text/plain'}, text.encode()
        if name == 'model_checksum.sha256':
            r = self.releases[self.live['sum']]
            return 200, {'content-type': 'text/plain'}, (
                f'{r.checksum}  model.tar.gz\n').encode()
        if name == 'model.tar.gz':
            r = self.releases[self.live['tar']]
            h = {'content-type': 'application/gzip'}
            if r.chunked:
                h['x-sim-chunked'] = '1'
            return 200, h, r.tar
        return 404, {}, b'<html>not found</html>'


class Reader(ModelBasedReader):
    """The start of a parser, without the neural model."""

    def _initialise_model(self, **kwargs):
        pass

    def sentences2diagrams(self, *a, **kw):
        raise NotImplementedError

    def sentence2diagram(self, *a, **kw):
        raise NotImplementedError


def contents(d):
    """name -> bytes, or None when there is no such directory."""
    with bypass():
        if not os.path.isdir(d):
            return None
        out = {}
        for dp, dn, fn in os.walk(d):
            for f in fn:
                p = os.path.join(dp, f)
                with real.open(p, 'rb') as g:
                    out[os.path.relpath(p, d)] = g.read()
        return out


def identify(files, releases):
    """(set of releases whose content this is exactly, label)."""
    files = dict(files)
    label = files.pop('version.txt', None)
    label = label.decode('utf-8', 'replace').strip() \
        if label is not None else None
    return {k for k, r in enumerate(releases)
            if r.good and r.files == files}, label


def describe(files, releases):
    files = dict(files)
    label = files.pop('version.txt', b'<none>').decode('utf-8', 'replace')
    parts = []
    for n in sorted(files):
        src = [k for k, r in enumerate(releases)
               if r.files.get(n) == files[n]]
        parts.append(f'{n}:{"/".join(map(str, src)) or "damaged"}')
    return f'label {label.strip()[:40]!r}, files from releases ' + \
        ', '.join(parts)


def run_history(case, ctx, exact_label):
    """exact_label: nothing is published during a start, so the label must
    name the very release that is installed."""
    releases = [Release(s) for s in case['releases']]
    srv = Server(case['model'], releases)
    srv.publish(case['first'])
    old_tmp, old_env = tempfile.tempdir, os.environ.get('XDG_CACHE_HOME')
    from dst.train import Scratch
    with Scratch() as root, SimClock(ctx) as clock:
        try:
            cache = os.path.join(root, 'cache')
            real.mkdir(os.path.join(root, 'tmp'))
            tempfile.tempdir = os.path.join(root, 'tmp')
            os.environ['XDG_CACHE_HOME'] = cache
            _history(case, ctx, root, cache, srv, releases, exact_label,
                     clock)
        finally:
            tempfile.tempdir = old_tmp
            if old_env is None:
                os.environ.pop('XDG_CACHE_HOME', None)
            else:
                os.environ['XDG_CACHE_HOME'] = old_env


def start(case, st, root, cache, srv, ctx, disk, offline, plan, before=None):
    """One process: constructs a reader.  Returns (outcome, reader or
    exception, the network)."""
    import contextlib
    sink = io.StringIO()
    sn = net.SimNet(srv, plan, offline=offline, ctx=ctx, before=before)
    try:
        with sn, disk, contextlib.redirect_stdout(sink), \
                contextlib.redirect_stderr(sink):
            rd = Reader(case['model'],
                        cache_dir=cache if case['cache'] == 'param' else None,
                        force_download=st.get('force', False),
                        verbose=st.get('verbose', 'suppress'))
        if disk.frozen:
            raise SimKill('swallowed')
        return 'ok', rd, sn
    except SimKill as e:
        return 'killed', e, sn
    except net.SimHang as e:
        return 'hang', e, sn
    except Exception as e:
        return 'error', e, sn
    finally:
        disk.heal()              # files closed by the collector later on


def judge(rd, releases, when, during, exact_label, accepted):
    """The directory a started reader uses must be one release."""
    files = contents(rd.model_dir)
    if files is None:
        raise Violation('reader-without-model',
                        f'{when}: the reader started without a model '
                        'directory')
    which, label = identify(files, releases)
    if not which:
        raise Violation('mixed-or-partial-model',
                        f'{when}: the reader started with a directory that '
                        f'is no release: {describe(files, releases)}')
    names = {releases[k].version for k in which}
    if label in names or (sorted(which), label) in accepted:
        return which, label
    # published while this start was downloading: an older label is
    # corrected by the next start
    if during and label in {releases[k].version for k in during} \
            and not exact_label:
        order = [releases[k].version for k in during]
        if max(order.index(releases[k].version) for k in which
               if releases[k].version in order) >= order.index(label):
            accepted.append((sorted(which), label))
            return which, label
    raise Violation('wrong-label',
                    f'{when}: release {sorted(names)} is installed but '
                    f'labelled {label!r:.80}')


def _history(case, ctx, root, cache, srv, releases, exact_label, clock):
    installed = False
    accepted = []
    disk = SimDisk(root, ctx=ctx)
    if case.get('debris'):
        leave_debris(case, root, cache, srv, releases, disk)
        ctx.fault('debris_' + case['debris'])
    for n, st in enumerate(case['starts'] + [{'final': True}]):
        final = st.get('final')
        when = f'start {n}'
        clock.tick(3600.0)
        if st.get('publish') is not None:
            srv.publish(st['publish'])
        if final:
            when = 'start after faults ended'
            if not releases[srv.latest].good:
                srv.publish(max(k for k, r in enumerate(releases)
                                if r.good))
            else:
                srv.publish(srv.latest)
        during = [srv.latest]
        mid = {int(k): v for k, v in st.get('mid', {}).items()}

        def before(k):
            for rel, part in mid.pop(k, ()):
                srv.publish(rel, part)
                ctx.fault('publish_during_download')
                if srv.latest != during[-1]:
                    during.append(srv.latest)
                elif rel not in during:
                    during.append(rel)

        disk.plan = {disk.n + k: [kind, a]
                     for k, kind, a in st.get('disk', ())}
        disk.rplan = {}
        f0 = len(disk.fired)
        n0 = disk.n
        outcome, got, sn = start(case, st, root, cache, srv, ctx, disk,
                                 st.get('offline', False),
                                 st.get('net', {}), before)
        for k in sorted(mid):
            before(k)
        fired = disk.fired[f0:]
        netf = [e[2] for e in sn.log if e[2]]
        disk.heal()
        if fired or netf or st.get('offline'):
            ctx.nontrivial = True
        if any(not releases[k].good for k in during):
            ctx.fault('broken_release')
            netf.append('broken_release')
        ctx.steps += disk.n - n0
        if outcome == 'hang':
            raise Violation('start-hangs', f'{when}: {got} ({netf})')
        shown = (type(got).__name__ + ': ' + str(got)[:200]
                 if outcome == 'error' else '')
        which, label = set(), None
        if outcome == 'ok':
            which, label = judge(got, releases, f'{when} after {fired}'
                                 f'{netf}', during, exact_label,
                                 accepted)
        ctx.event(n, outcome, fired, netf, sorted(which), label,
                  disk.n - n0)
        ctx.state(outcome, fired, netf, installed, st.get('offline'),
                  st.get('force'), len(during), sorted(which))
        if outcome == 'killed':
            disk.after_crash(None)
            disk = SimDisk(root, ctx=ctx)
        elif outcome == 'error':
            if not fired:
                if final:
                    raise Violation('no-recovery',
                                    f'{when}: {shown} although the server '
                                    'and the disk are healthy')
                if installed:
                    raise Violation(
                        'installed-model-unusable',
                        f'{when}: {shown} after {netf or "no fault"} '
                        'although a version is installed')
                if not netf and not st.get('offline') and not mid and \
                        len(during) == 1:
                    raise Violation('no-recovery', f'{when}: {shown} '
                                    'without any fault')
        if outcome == 'ok' and not fired and not netf \
                and not st.get('offline') and len(during) == 1:
            if not any(releases[k].version == releases[srv.latest].version
                       for k in which):
                raise Violation(
                    'not-updated', f'{when}: uses {label!r}, the latest '
                    f'release is {releases[srv.latest].version!r}')
            ctx.probe('up_to_date')
        if not final:
            # what an offline start would use now
            poutcome, pgot, _ = start(
                case, {'verbose': 'suppress'}, root, cache, srv, None, disk,
                True, {})
            if poutcome == 'hang':
                raise Violation('start-hangs', f'{when}, then offline')
            if poutcome == 'ok':
                judge(pgot, releases, f'offline start after {when} '
                      f'({outcome} {fired}{netf})', during, exact_label,
                      accepted)
                installed = True
            else:
                if outcome == 'ok':
                    raise Violation(
                        'installed-model-unusable',
                        f'offline start after successful {when}: '
                        f'{type(pgot).__name__}: {pgot}')
                if installed and not fired and outcome != 'killed':
                    raise Violation(
                        'installed-model-unusable',
                        f'{when} ({netf}) destroyed the installed version: '
                        f'{type(pgot).__name__}: {pgot}')
                installed = False
                ctx.probe('nothing_installed_after_fault')


def leave_debris(case, root, cache, srv, releases, disk):
    """What an interrupted installation of some other version of lambeq
    may have left in the model directory: nothing in it says that it is
    complete."""
    other = os.path.join(root, 'other')
    good = next(k for k, r in enumerate(releases) if r.good)
    live = dict(srv.live), srv.latest
    srv.publish(good)
    os.environ['XDG_CACHE_HOME'] = other
    outcome, rd, _ = start(case, {}, root, other, srv, None, disk, False, {})
    os.environ['XDG_CACHE_HOME'] = cache
    srv.live, srv.latest = live
    if outcome != 'ok':
        raise HarnessError(f'cannot install into a fresh cache: {rd!r}')
    d = os.path.join(cache, os.path.relpath(str(rd.model_dir), other))
    with bypass():
        import shutil
        shutil.rmtree(other)
        os.makedirs(d)
        files = sorted(releases[good].files.items())
        if case['debris'] == 'empty':
            files = []
        elif case['debris'] == 'part':
            files = files[:-1] or [(files[0][0], files[0][1][:3])]
        for n, data in files:
            f = os.path.join(d, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with real.open(f, 'wb') as g:
                g.write(data)


def gen_debris(r):
    return r.choice([None] * 7 + ['empty', 'part', 'part', 'unlabelled'])


def gen_releases(r, broken_p=0.0):
    n = r.choice([1, 2, 2, 3])
    out = []
    patch = [r.randrange(3) for _ in range(n)]
    style = r.choice([lambda k: f'1.{k}.{patch[k]}',
                      lambda k: f'1.{9 + k}.{patch[k]}',
                      lambda k: f'{98 + k}',
                      lambda k: f'0.{k + 1}.0rc{patch[k]}'])
    for k in range(n):
        names = r.sample(NAMES, r.randint(1, 5))
        files = {m: [r.randrange(6), 0 if m == 'empty.txt' else
                     r.choice([20, 300, 300, 3000, 12000])] for m in names}
        spec = {'version': style(k), 'files': files,
                'chunked': r.random() < 0.3}
        if k and r.random() < broken_p:
            spec['broken'] = r.choice(['tar', 'not_tar', 'checksum'])
            files['weights.bin'] = [r.randrange(6), 12000]
        out.append(spec)
    return out
