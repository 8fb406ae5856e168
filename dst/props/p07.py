"""P07: an interrupted model installation never yields a mixed model."""
from dst import install as I

ID = 'P07'
RUNS = {'quick': 5000, 'thorough': 200000}
BLOCK = 50
IMPORTS = ['netrc']
RULE = ('A case is a set of releases and a history of parser starts, each '
        'online or offline, with disk errors and process kills at chosen '
        'disk steps of the installation, and releases published between '
        'starts; non-trivial when a fault fired or a start was offline.')
STATE_MEASURE = ('(outcome of a start, faults that fired in it, whether a '
                 'version was installed, online, forced, release in use)')
REAL = ['ModelBasedReader start', 'ModelDownloader', 'requests', 'urllib3',
        'http.client', 'tarfile', 'shutil', 'tempfile']
STUB = ['sockets and TLS', 'model server', 'disk faults over a scratch '
        'directory', 'clock', 'neural model of the parser']
ASSUMPTIONS = [
    'A killed process leaves every completed system call visible (page '
    'cache survives); power loss is not claimed for installations.',
    'A model directory without a version label is what is left of an '
    'interrupted installation.',
    'Reading a model directory is by the files in it; the neural model '
    'itself is not loaded.']
SHRINK_LISTS = {'starts', 'releases', 'disk'}

DISK = ['crash'] * 4 + ['torn'] * 3 + ['crash_after'] * 2 + [
    'enospc', 'enospc', 'enospc_sticky', 'eio', 'eacces', 'short', 'emfile',
    'edquot']


def gen(r, i, tier):
    rel = I.gen_releases(r)
    starts = []
    for k in range(r.choice([1, 2, 2, 3, 4])):
        st = {'force': r.random() < 0.15,
              'verbose': r.choice(['suppress', 'text', 'progress'])}
        if r.random() < 0.45 and k:
            st['publish'] = r.randrange(len(rel))
        if r.random() < 0.15:
            st['offline'] = True
        if r.random() < 0.75:
            st['disk'] = [[r.randrange(r.choice([6, 14, 30, 50])),
                           r.choice(DISK), round(r.random(), 2)]
                          for _ in range(r.choice([1, 1, 1, 2]))]
        starts.append(st)
    return {'model': r.choice(['bobcat', 'oncilla']), 'releases': rel,
            'debris': I.gen_debris(r),
            'first': r.randrange(len(rel)),
            'cache': r.choice(['param', 'param', 'env']), 'starts': starts}


def run(case, ctx):
    I.run_history(case, ctx, exact_label=True)


def shrinks(case):
    from dst.core import generic_shrinks
    if case.get('debris'):
        yield dict(case, debris=None)
    yield from generic_shrinks(case, {'starts', 'disk'})
    for j, s in enumerate(case['starts']):
        for k in ('force', 'publish', 'offline'):
            if s.get(k):
                t = dict(s)
                del t[k]
                st = list(case['starts'])
                st[j] = t
                yield dict(case, starts=st)
    for j, rl in enumerate(case['releases']):
        for n in rl['files']:
            if len(rl['files']) > 1:
                f = {k: v for k, v in rl['files'].items() if k != n}
                rs = list(case['releases'])
                rs[j] = dict(rl, files=f)
                yield dict(case, releases=rs)
