"""P08: model download survives network faults and rejects corrupt data."""
from dst import install as I
from dst import net

ID = 'P08'
RUNS = {'quick': 5000, 'thorough': 200000}
BLOCK = 50
IMPORTS = ['netrc']
RULE = ('A case is a set of releases and a history of parser starts with '
        'faults on chosen connections (name resolution, refusal, TLS, '
        'timeouts, stalls, resets, early close, error statuses, corrupted, '
        'cut, replaced or swapped content), broken releases and releases '
        'published while a start is downloading; non-trivial when a fault '
        'fired.')
STATE_MEASURE = ('(outcome of a start, faults that fired in it, whether a '
                 'version was installed, forced, publishes seen, release)')
REAL = ['ModelBasedReader start', 'ModelDownloader', 'requests', 'urllib3',
        'http.client', 'tarfile', 'shutil', 'tempfile']
STUB = ['sockets and TLS', 'model server', 'clock',
        'neural model of the parser']
ASSUMPTIONS = [
    'Responses are length-delimited or chunked, as HTTP/1.1 servers send '
    'them; the version and checksum texts themselves are not altered in '
    'transit other than by being lost, cut short or replaced by an error '
    'status.',
    'A publisher replaces the tarball first, then the checksum, then the '
    'version, and never goes back to an older release.']
SHRINK_LISTS = {'starts', 'releases'}


def fault(r, k):
    if k == 0:
        # the version text is not protected by a checksum
        kind = r.choice(list(net.CONNECT) + [
            x for x in net.RESPONSE] + ['bad_gzip'])
    else:
        kind = r.choice(list(net.CONNECT) + list(net.RESPONSE) * 2
                        + list(net.CONTENT) * 3)
    return [kind, round(r.random(), 3)]


def gen(r, i, tier):
    rel = I.gen_releases(r, broken_p=0.25)
    starts = []
    cur = 0                      # releases are only published forwards
    for k in range(r.choice([1, 2, 2, 3, 4])):
        st = {'force': r.random() < 0.3,
              'verbose': r.choice(['suppress', 'text', 'progress'])}
        if r.random() < 0.5 and k:
            st['publish'] = cur = r.randrange(cur, len(rel))
        if r.random() < 0.08:
            st['offline'] = True
        elif r.random() < 0.75:
            plan = {}
            for _ in range(r.choice([1, 1, 1, 2])):
                c = r.choice([0, 1, 2, 2, 2, 2])
                plan[str(c)] = fault(r, c)
            st['net'] = plan
        if r.random() < 0.3 and len(rel) > 1:
            new = cur = r.randrange(cur, len(rel))
            if r.random() < 0.5:
                st['mid'] = {str(r.randrange(1, 3)): [[new, None]]}
            else:
                ks = sorted(r.randrange(0, 4) for _ in range(3))
                st['mid'] = {}
                for c, part in zip(ks, ('tar', 'sum', 'ver')):
                    st['mid'].setdefault(str(c), []).append([new, part])
        starts.append(st)
    return {'model': r.choice(['bobcat', 'oncilla']), 'releases': rel,
            'debris': I.gen_debris(r),
            'first': 0, 'cache': r.choice(['param', 'param', 'env']),
            'starts': starts}


def run(case, ctx):
    I.run_history(case, ctx, exact_label=False)


def shrinks(case):
    from dst.core import generic_shrinks
    if case.get('debris'):
        yield dict(case, debris=None)
    yield from generic_shrinks(case, {'starts'})
    for j, s in enumerate(case['starts']):
        for k in ('force', 'publish', 'offline', 'mid', 'net'):
            if s.get(k):
                t = dict(s)
                del t[k]
                st = list(case['starts'])
                st[j] = t
                yield dict(case, starts=st)
    for j, rl in enumerate(case['releases']):
        for n in rl['files']:
            if len(rl['files']) > 1:
                f = {k: v for k, v in rl['files'].items() if k != n}
                rs = list(case['releases'])
                rs[j] = dict(rl, files=f)
                yield dict(case, releases=rs)
