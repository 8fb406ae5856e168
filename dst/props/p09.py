"""P09: remote parsing attributes every result to its own sentence."""
import contextlib
import io
import json

import requests

from dst import ccg, net
from dst.core import HarnessError, Violation, rng_for
from dst.seams import SimClock

from lambeq import WebParser, WebParseError
from lambeq.text2diagram import CCGTree

net.install()
ID = 'P09'
RUNS = {'quick': 6000, 'thorough': 250000}
BLOCK = 100
IMPORTS = ['netrc']
RULE = ('A case is a history of batches (words, blanks, duplicates, '
        'tokenised or not, suppressed or not) sent to a remote parser with '
        'faults on chosen requests: connection and transport faults, error '
        'statuses, replaced bodies and answers that are not derivations; '
        'non-trivial when a fault fired.')
STATE_MEASURE = ('(batch shape, positions and kinds of faults, options, '
                 'outcome)')
REAL = ['WebParser', 'CCGParser.sentences2diagrams', 'CCGTree', 'requests',
        'urllib3', 'http.client']
STUB = ['sockets and TLS', 'parsing service', 'clock']
ASSUMPTIONS = ['An answer is a failure when its status is not 200 or its '
               'body is not a JSON derivation; a derivation in an error '
               'status counts as neither.']
SHRINK_LISTS = {'batches', 'sentences'}

WORDS = ['Alice', 'runs', 'the', 'old', "dog's", 'ça', '猫', 'a+b', '100%',
         'x&y=z', '#1', '"quoted"', 'very', 'sleeps', 'null', 'new\u00a0line']
BAD_JSON = ['{}', '[]', '3', 'null', '"text"', '{"error": "busy"}',
            '{"type": 5}', '{"type": "NP/"}', '{"type": "S", "children": 7}',
            '{"type": "S", "children": [null, {}]}', '[1, 2]', 'true',
            '{"type": "S", "children": ["oops"]}',
            '{"type": null}', '{"type": ""}', '{"type":"S\\\\NP","rule":"FA",'
            '"children":[]}', 'NaN', '{"detail":"overloaded"']
KINDS = (list(net.CONNECT) + list(net.RESPONSE) * 2
         + ['bad_gzip', 'html_200', 'empty_200', 'cut'] + ['json'] * 12
         + ['json500'] * 3 + ['text500', 'redirect', 'utf8'] + ['clean500'])


def gen(r, i, tier):
    batches = []
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice([0, 1, 1, 2, 3, 4, 6])
        sents = []
        for _ in range(n):
            if r.random() < 0.2:
                sents.append([])
            elif sents and r.random() < 0.15:
                sents.append(list(r.choice(sents)))
            else:
                sents.append([r.choice(WORDS)
                              for _ in range(r.choice([1, 2, 3, 4, 6]))])
        faults = {}
        if r.random() < 0.8:
            for _ in range(r.choice([1, 1, 2, 3])):
                faults[str(r.randrange(max(1, n)))] = [
                    r.choice(KINDS), round(r.random() * 0.99, 3)]
        batches.append({'sentences': sents, 'faults': faults,
                        'tokenised': r.random() < 0.4,
                        'suppress': r.random() < 0.7,
                        'spaces': r.choice([' ', '  ', '\t ']),
                        'what': r.choice(['trees', 'trees', 'diagrams']),
                        'single': n == 1 and r.random() < 0.3,
                        'verbose': r.choice(['suppress', 'text', 'progress',
                                             None])})
    return {'batches': batches}


class Service:
    def __init__(self, faults):
        self.faults = faults
        self.log = []            # (sentence, answer tree or None when bad)

    def handle(self, method, path, query, headers, body, k):
        s = query.get('sentence', [''])[0]
        t = ccg.tree(rng_for('tree', s), s.split(' '))
        good = json.dumps(t.to_json()).encode()
        kind, arg = self.faults.get(str(k), (None, 0))
        h = {'content-type': 'application/json'}
        ok = kind in (None, 'slow')
        status, data = 200, good
        if kind == 'json':
            data = BAD_JSON[int(arg * len(BAD_JSON)) % len(BAD_JSON)].encode()
        elif kind == 'json500':
            status, data = 500, b'{"error": "internal"}'
        elif kind == 'text500':
            status, data = 502, b'Bad gateway'
        elif kind == 'utf8':
            data = b'\xff\xfe\x00' + good[:10] + b'\xff'
        elif kind == 'redirect':
            status, data = 302, b''
            h['location'] = '/tree/json?sentence=loop'
        elif kind == 'clean500':
            status, data = 404, b''
        elif kind == 'cut':
            ok = int(arg * len(good)) == len(good)
        self.log.append((s, t if ok else None, kind))
        return status, h, data


def run(case, ctx):
    with SimClock(ctx):
        parser = WebParser()
        for b, batch in enumerate(case['batches']):
            one(case, ctx, parser, b, batch)


def one(case, ctx, parser, b, batch):
    sents = [[w.replace('\u00a0', '_') for w in s] for s in
             batch['sentences']]
    plain = [' '.join(s) for s in sents]
    plan = {k: v for k, v in batch['faults'].items()
            if v[0] in net.CONNECT + net.RESPONSE + net.CONTENT}
    svc = Service(batch['faults'])
    if batch['tokenised']:
        arg = [list(s) for s in sents]
    else:
        arg = [batch['spaces'].join(s) for s in sents]
        arg = [' ' + a if a and j % 3 == 1 else a for j, a in enumerate(arg)]
        arg = ['  ' if not a and j % 2 else a for j, a in enumerate(arg)]
    before = json.dumps(arg)
    fn = {'trees': parser.sentences2trees,
          'diagrams': parser.sentences2diagrams}[batch['what']]
    fn1 = {'trees': parser.sentence2tree,
           'diagrams': parser.sentence2diagram}[batch['what']]
    sn = net.SimNet(svc, plan, ctx=ctx)
    out = exc = None
    sink = io.StringIO()
    with sn, contextlib.redirect_stderr(sink), \
            contextlib.redirect_stdout(sink):
        try:
            if batch['single'] and len(arg) == 1:
                out = [fn1(arg[0], tokenised=batch['tokenised'],
                           suppress_exceptions=batch['suppress'])]
            else:
                out = fn(arg, tokenised=batch['tokenised'],
                         suppress_exceptions=batch['suppress'],
                         verbose=batch['verbose'])
        except net.SimHang as e:
            raise Violation('hangs', f'batch {b}: {e}')
        except Exception as e:
            exc = e
    # connections that never reached the service
    answers = {}
    order = []
    served = iter(svc.log)
    for k in range(sn.n):
        f = batch['faults'].get(str(k))
        order.append(f[0] if f else None)
    fired = [f for f in order if f]
    for f in fired:
        ctx.fault('answer_' + f) if f not in (
            net.CONNECT + net.RESPONSE + net.CONTENT) else None
    if fired:
        ctx.nontrivial = True
    if json.dumps(arg) != before:
        raise Violation('input-changed', f'batch {b}: the caller\'s batch '
                        'was modified')
    blanks = [j for j, s in enumerate(plain) if not s.strip()]
    todo = [s for s in plain if s.strip()]
    what = f'batch {b} {plain!r} faults {batch["faults"]}'
    if not batch['suppress'] and blanks:
        if not isinstance(exc, ValueError):
            raise Violation('blank-not-reported',
                            f'{what}: blank sentence gave {exc or out!r}')
        ctx.event(b, 'blank reported')
        return
    # which requests failed: one request per sentence, in order
    redirects = [k for k, f in enumerate(order) if f == 'redirect']
    if redirects:
        # a redirect adds a request; the answer is to another sentence
        if exc is None and out is None:
            raise HarnessError('redirect')
        ctx.probe('redirected')
        return
    fails = []
    for j in range(len(todo)):
        f = batch['faults'].get(str(j))
        bad = f is not None and f[0] != 'slow'
        fails.append(bad)
    first = next((j for j, x in enumerate(fails) if x), None)
    ctx.state([bool(s.strip()) for s in plain], sorted(
        (k, v[0]) for k, v in batch['faults'].items()), batch['suppress'],
        batch['what'], type(exc).__name__)
    ctx.event(b, order, type(exc).__name__, str(exc)[:80])
    if not batch['suppress']:
        if first is not None:
            if exc is None:
                raise Violation('failure-not-reported',
                                f'{what}: returned {out!r} although request '
                                f'{first} failed')
            if not isinstance(exc, (requests.RequestException,
                                    WebParseError)):
                raise Violation('wrong-error',
                                f'{what}: {type(exc).__name__}: {exc} is '
                                'neither a request nor a parse error')
            if isinstance(exc, WebParseError) and \
                    exc.sentence != todo[first]:
                raise Violation('wrong-sentence-blamed',
                                f'{what}: error names {exc.sentence!r}, '
                                f'request {first} failed')
            return
    if exc is not None:
        raise Violation('spurious-error',
                        f'{what}: {type(exc).__name__}: {str(exc)[:200]}')
    if len(out) != len(plain):
        raise Violation('wrong-length', f'{what}: {len(out)} results for '
                        f'{len(plain)} sentences')
    want, k = [], 0
    for s in plain:
        if not s.strip():
            want.append(None)
            continue
        if fails[k]:
            want.append(None)
        else:
            t = CCGTree.from_json(ccg.tree(rng_for('tree', s),
                                           s.split(' ')).to_json())
            want.append(t)
        k += 1
    for j, (t, got) in enumerate(zip(want, out)):
        if batch['what'] == 'diagrams' and t is not None:
            t = t.to_diagram()
        if (got is None) != (t is None) or got != t:
            raise Violation('wrong-result',
                            f'{what}: entry {j} is {got!r}, expected {t!r}')
    if fired:
        ctx.probe('suppressed_failure')
