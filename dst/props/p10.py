"""P10: reading a damaged treebank loses only what is damaged."""
import contextlib
import io
import os
import re

from dst import ccg
from dst.core import HarnessError, Violation, rng_for
from dst.seams import SimDisk, real
from dst.train import Scratch

from lambeq import CCGBankParser
from lambeq.text2diagram import CCGTree
from lambeq.text2diagram.ccgbank_parser import CCGBankParseError

ID = 'P10'
RUNS = {'quick': 6000, 'thorough': 250000}
BLOCK = 100
RULE = ('A case is a generated treebank section, damage to its files (lost, '
        'torn, garbled, zeroed, duplicated or inserted lines and ranges, '
        'undecodable bytes, truncated files), read faults, and a sequence '
        'of readers consumed fully, partly or interleaved; non-trivial when '
        'an entry was damaged or a read failed.')
STATE_MEASURE = ('(kinds of damage, entries intact, options, how the stream '
                 'was consumed, outcome)')
REAL = ['CCGBankParser', 'CCGTree', 'text decoding of the Python runtime']
STUB = ['disk (read faults over a scratch directory)']
ASSUMPTIONS = [
    'An entry is intact when its ID line and tree line stand next to each '
    'other unchanged in the file; damage that leaves a different but '
    'well-formed ID line, or joins the ID line of one entry to the tree '
    'line of another, cannot be told from a genuine entry.']
SHRINK_LISTS = {'damage', 'entries', 'reads', 'uses'}

WORDS = ['Alice', 'the', 'old', 'dog', 'runs', '-LRB-', '-RCB-', "'s", '%',
         'U.S.', '1\\/2', 'Café', 'sleeps', 'Mr.', '``', 'ID=wsj_0000.1']
ESC = {'-LCB-': '{', '-RCB-': '}', '-LRB-': '(', '-RRB-': ')'}
FEATS = {'S': ['S', 'S[dcl]', 'S[b]'], 'NP': ['NP', 'NP[nb]', 'NP'],
         'N': ['N', 'N', 'N[num]']}


def gen(r, i, tier):
    files = []
    n = 0
    for f in range(r.choice([1, 1, 2, 3])):
        entries = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
            n += 1
            entries.append([n, r.choice([1, 2, 3, 4, 5, 7])])
        files.append({'name': f'wsj_{r.randrange(40):04}.auto',
                      'entries': entries, 'nl': r.random() < 0.8})
    damage = []
    if r.random() < 0.85:
        for _ in range(r.choice([1, 1, 2, 3])):
            damage.append([r.randrange(len(files)),
                           r.choice(['drop', 'drop', 'tear_line', 'tear_line',
                                     'tear_file', 'tear_file', 'insert',
                                     'blank', 'dup', 'bad_bytes', 'bad_id',
                                     'zero', 'merge', 'swap_ids_away',
                                     'empty_file', 'garbage_file', 'flip']),
                           round(r.random(), 4), round(r.random(), 4)])
    uses = []
    for _ in range(r.choice([1, 1, 2, 3])):
        uses.append({'what': r.choice(['trees', 'trees', 'trees_gen',
                                       'trees_gen', 'diagrams',
                                       'diagrams_gen']),
                     'suppress': r.random() < 0.6,
                     'verbose': r.choice([None, 'suppress', 'text',
                                          'progress']),
                     'planar': r.random() < 0.2,
                     'take': r.choice([None, None, 0, 1, 2, 3]),
                     'interleave': r.random() < 0.3,
                     'reads': [[r.randrange(6), r.choice(
                         ['eio', 'eacces', 'short', 'short'])]]
                     if r.random() < 0.2 else []})
    return {'files': files, 'damage': damage, 'uses': uses,
            'seed': r.randrange(10**6)}


def entry_tree(case, k, n):
    r = rng_for('entry', case['seed'], k)
    return ccg.tree(r, [r.choice(WORDS) for _ in range(n)]), r


def write_auto(t, r):
    """The AUTO format of a tree."""
    cat = cat_of(t)

    def feat(m):
        return r.choice(FEATS.get(m[0], [m[0]]))
    shown = re.sub(r'NP|N|S', feat, cat)
    if not t.children:
        return f'(<L {shown} NN NN {t.text} {shown}>)'
    kids = ' '.join(write_auto(c, r) for c in t.children)
    return f'(<T {shown} {r.randrange(2)} {len(t.children)}> {kids} )'


def cat_of(t):
    return CAT[str(t.biclosed_type)]


CAT = {}
for _c in ['S', 'NP', 'N', 'NP/N', 'N/N', 'S\\NP', '(S\\NP)/NP',
           '(S\\NP)\\(S\\NP)', 'S/(S\\NP)', 'S\\N']:
    CAT[str(ccg.P(_c))] = _c


def expected(t):
    """What reading the entry must give, as nested tuples."""
    if not t.children:
        return (cat_of(t), ESC.get(t.text, t.text))
    return (cat_of(t),) + (tuple(expected(c) for c in t.children),)


def shape(t):
    c = str(t.biclosed_type)
    if not t.children:
        return (CAT.get(c, c), t.text)
    return (CAT.get(c, c),) + (tuple(shape(x) for x in t.children),)


GARBAGE = [b'???', b'(<T S 0 2> (<L NP', b'ID', b'ID= wsj', b'\xff\xfe\xff',
           b'(<L NP NN NN spam NP>)', b'<<<<<<< HEAD', b'\x00' * 9]


def apply_damage(files, damage):
    out = [b''.join(x) for x in files]
    kinds = []
    for f, kind, a, b in damage:
        f %= len(out)
        data = out[f]
        lines = data.split(b'\n')
        j = int(a * len(lines)) % len(lines)
        new = None
        if kind == 'drop':
            new = b'\n'.join(lines[:j] + lines[j + 1:])
        elif kind == 'tear_line':
            if lines[j].startswith(b'ID'):
                lines[j] = lines[j][:int(b * 3)]
            else:
                lines[j] = lines[j][:int(b * len(lines[j]))]
            new = b'\n'.join(lines)
        elif kind == 'merge' and j + 1 < len(lines):
            new = b'\n'.join(lines[:j] + [lines[j] + lines[j + 1]]
                             + lines[j + 2:])
            if lines[j].startswith(b'ID') or not lines[j]:
                new = None
        elif kind == 'tear_file':
            cut = int(a * len(data))
            start = data.rfind(b'\n', 0, cut) + 1
            if data[start:start + 2] == b'ID' and b'\n' in data[cut:]:
                # a torn ID line must not read as another ID
                cut = min(cut, start + 2) if b < 0.5 else \
                    data.index(b'\n', cut) + (b < 0.75)
            new = data[:cut]
        elif kind == 'insert':
            g = GARBAGE[int(b * len(GARBAGE)) % len(GARBAGE)]
            new = b'\n'.join(lines[:j] + [g] + lines[j:])
        elif kind == 'blank':
            new = b'\n'.join(lines[:j] + [b''] + lines[j:])
        elif kind == 'dup':
            new = b'\n'.join(lines[:j + 1] + lines[j:])
        elif kind == 'bad_bytes':
            if not lines[j].startswith(b'ID'):
                p = int(b * (len(lines[j]) + 1))
                lines[j] = lines[j][:p] + b'\xc3\x28\xff' + lines[j][p:]
                new = b'\n'.join(lines)
        elif kind == 'bad_id':
            if lines[j].startswith(b'ID='):
                lines[j] = b'I' + lines[j][3:]
                new = b'\n'.join(lines)
        elif kind == 'zero' and data:
            s = int(a * len(data))
            e = min(len(data), s + 1 + int(b * 120))
            new = data[:s] + b'\0' * (e - s) + data[e:]
        elif kind == 'swap_ids_away':
            new = b'\n'.join(x for x in lines if not x.startswith(b'ID='))
        elif kind == 'empty_file':
            new = b''
        elif kind == 'garbage_file':
            new = rng_for('g', a).randbytes(300).replace(b'\r', b'\n')
        elif kind == 'flip' and not lines[j].startswith(b'ID') and lines[j]:
            p = int(b * len(lines[j])) % len(lines[j])
            if lines[j][p:p + 1] in b'()<> ':
                lines[j] = lines[j][:p] + b'#' + lines[j][p + 1:]
                new = b'\n'.join(lines)
        if new is not None and new != data:
            out[f] = new
            kinds.append(kind)
    return out, kinds


def run(case, ctx):
    entries = {}                     # id -> (id line, tree line, tree)
    texts = []
    names = []
    for f in case['files']:
        if f['name'] in names:
            f = dict(f, name=f['name'] + f'.{len(names)}')
        names.append(f['name'])
        parts = []
        for k, n in f['entries']:
            t, r = entry_tree(case, k, n)
            i = f'wsj_{k:04}.{k}'
            idl = f'ID={i} PARSER=GOLD NUMPARSE=1'.encode()
            trl = write_auto(t, r).encode()
            entries[i] = (idl, trl, t)
            parts += [idl + b'\n', trl + b'\n']
        if parts and not f['nl']:
            parts[-1] = parts[-1][:-1]
        texts.append(parts)
    damaged, kinds = apply_damage(texts, case['damage'])
    for k in kinds:
        ctx.fault('damage_' + k)
    by_pair = {(v[0], v[1]): k for k, v in entries.items()}
    tree_lines = {v[1] for v in entries.values()}
    stream = []                      # what must be delivered, in order
    unreadable = {}                  # entries that cannot be read, and why
    clean = not kinds
    for name, data in sorted(zip(names, damaged)):
        lines = re.split(b'\r\n|\r|\n', data)
        for a, b in zip(lines, lines[1:]):
            hit = by_pair.get((a, b))
            if hit:
                stream.append(hit)
            elif re.match(rb'ID=\S', a) and b.startswith(b'(<') and \
                    b'\xc3\x28\xff' in b:
                unreadable[re.match(rb'ID=(\S+)', a)[1].decode(
                    errors='replace')] = 'holds bytes that are not text'
            elif re.match(rb'ID=\S', a) and b.startswith(b'(<') and \
                    b.count(b'(') != b.count(b')') and \
                    any(t.startswith(b) for t in tree_lines):
                unreadable[re.match(rb'ID=(\S+)', a)[1].decode(
                    errors='replace')] = 'has lost its end'
            elif re.match(rb'ID=\S', a) and b in tree_lines:
                ctx.probe('fused_pair')
                return               # reads as a genuine entry
    shapes = {i: expected(v[2]) for i, v in entries.items()}
    with Scratch() as root:
        sec = os.path.join(root, 'data', 'AUTO', '03')
        os.makedirs(sec)
        for name, data in zip(names, damaged):
            with real.open(os.path.join(sec, name), 'wb') as g:
                g.write(data)
        disk = SimDisk(root, ctx=ctx)
        sure = surely_before(names, texts, damaged)
        parser = CCGBankParser(root)
        for u, use in enumerate(case['uses']):
            consume(case, ctx, parser, disk, u, use, stream, entries, shapes,
                    clean, kinds, sure, {k: why for k, why
                                         in unreadable.items()
                                         if k not in stream})


def consume(case, ctx, parser, disk, u, use, stream, entries, shapes, clean,
            kinds, sure, unreadable):
    disk.heal()
    disk.rplan = {disk.rn + k: kind for k, kind in use['reads']}
    f0 = len(disk.fired)
    kw = dict(suppress_exceptions=use['suppress'], verbose=use['verbose'])
    diag = use['what'].startswith('diagrams')
    if diag:
        kw['planar'] = use['planar']
    fn = getattr(parser, 'section2' + use['what'])
    items, exc, complete = [], None, False
    sink = io.StringIO()
    with disk, contextlib.redirect_stderr(sink), \
            contextlib.redirect_stdout(sink):
        try:
            if use['what'].endswith('_gen'):
                g = fn(3, **kw)
                other = parser.section2trees_gen(
                    3, suppress_exceptions=True) if use['interleave'] else None
                it = iter(g)
                while use['take'] is None or len(items) < use['take']:
                    try:
                        items.append(next(it))
                    except StopIteration:
                        complete = True
                        break
                    if other is not None and not use['reads']:
                        next(other, None)
                if not complete:
                    g.close()
                    ctx.probe('abandoned')
            else:
                items = list(fn(3, **kw).items())
                complete = True
        except Exception as e:
            exc = e
    fired = [x for x in disk.fired[f0:] if x != 'short_read']
    if kinds or fired:
        ctx.nontrivial = True
    what = (f'use {u} ({use["what"]}, suppress={use["suppress"]}) after '
            f'{kinds}{fired}')
    ctx.state(sorted(kinds), len(stream), len(entries), use['what'],
              use['suppress'], use['take'], fired, type(exc).__name__)
    ctx.event(u, kinds, fired, type(exc).__name__, str(exc)[:100].replace(
        disk.root, ''), [k for k, _ in items])
    # --- exceptions
    unconv = False
    if exc is not None:
        ok = (isinstance(exc, CCGBankParseError)
              or (isinstance(exc, OSError) and fired))
        if diag and not ok and not use['suppress']:
            unconv = any(conv(entries[k][2], use)[0] for k in stream)
            ok = unconv or bool(kinds)
        if not ok:
            raise Violation('wrong-error', f'{what}: {type(exc).__name__}: '
                            f'{str(exc)[:200]}')
        if use['suppress'] and not fired:
            raise Violation('not-suppressed', f'{what}: {type(exc).__name__}'
                            f': {str(exc)[:200]}')
        if clean and not fired and not unconv:
            raise Violation('intact-rejected', f'{what}: {exc}')
    # --- every delivered tree is the right one
    seen = []
    for k, got in items:
        if k not in entries:
            if clean:
                raise Violation('invented-entry', f'{what}: {k!r}')
            continue
        if got is None:
            if not use['suppress']:
                raise Violation('failure-not-reported',
                                f'{what}: {k} is None')
            if k in stream and not (diag and conv(entries[k][2], use)[0]):
                seen.append((k, None))
            continue
        if diag:
            bad, want = conv(entries[k][2], use)
            right = not bad and got == want
            foreign = not right and any(
                not conv(entries[o][2], use)[0]
                and conv(entries[o][2], use)[1] == got
                for o in entries if o != k and shapes[o] != shapes[k])
        else:
            right = shape(got) == shapes[k]
            foreign = not right and any(
                shape(got) == shapes[o] for o in entries
                if o != k and shapes[o] != shapes[k])
        if foreign:
            raise Violation('wrong-attribution',
                            f'{what}: {k} was given the tree of another '
                            'entry')
        if not right and k in stream:
            raise Violation('wrong-tree', f'{what}: {k} got {got!r}')
        seen.append((k, got))
        if k in unreadable:
            raise Violation('damage-hidden', f'{what}: {k} {unreadable[k]}, '
                            'but a tree was delivered for it')
    # --- nothing intact is lost
    got_ids = [k for k, g in seen if g is not None]
    need = []
    for k in stream:
        if k not in need:
            need.append(k)
    if diag:
        need = [k for k in need if not conv(entries[k][2], use)[0]]
    firsts = []
    for k in got_ids:
        if k not in firsts and k in need:
            firsts.append(k)
    if complete and exc is None and not fired:
        if sorted(firsts) != sorted(need):
            lost = sorted(set(need) - set(firsts))
            raise Violation('intact-entry-lost', f'{what}: {lost} are intact '
                            'but were not delivered')
    # order of delivery, for streams without duplicated entries
    if len(set(stream)) == len(stream):
        pos = [need.index(k) for k in firsts]
        if pos != sorted(pos):
            raise Violation('wrong-order', f'{what}: {firsts}')
        if exc is not None and use['what'].endswith('_gen') \
                and pos != list(range(len(pos))):
            raise Violation('intact-entry-lost',
                            f'{what}: an intact entry before a delivered one '
                            'is missing')
    if exc is not None and not fired and use['what'] == 'trees_gen' \
            and use['take'] is None:
        got = [k for k, t in items if t is not None]
        if any(k not in got for k in sure):
            raise Violation('intact-entry-lost', f'{what}: {sure} stand '
                            f'before the first damage, delivered: {got}')


def surely_before(names, texts, damaged):
    """IDs of the entries that stand wholly before the first changed byte."""
    out = []
    for name, parts, data in sorted(zip(names, texts, damaged)):
        orig = b''.join(parts)
        p = len(os.path.commonprefix([orig, data]))
        pos = 0
        for a, b in zip(parts[::2], parts[1::2]):
            pos += len(a) + len(b)
            if pos > p or (pos == p and not b.endswith(b'\n')
                           and data != orig):
                return out
            out.append(re.match(rb'ID=(\S+)', a)[1].decode())
        if data != orig:
            return out
    return out


_conv = {}


def conv(t, use):
    """(cannot be converted, diagram)"""
    key = (repr(expected(t)), use['planar'])
    if key not in _conv:
        if len(_conv) > 500:
            _conv.clear()
        try:
            t2 = CCGTree.from_json(t.to_json())

            def fix(x):
                x._text = None if x.children else ESC.get(x.text, x.text)
                for c in x.children:
                    fix(c)
                return x
            _conv[key] = (False, fix(t2).to_diagram(planar=use['planar']))
        except Exception:
            _conv[key] = (True, None)
    return _conv[key]


def shrinks(case):
    from dst.core import generic_shrinks
    yield from generic_shrinks(case, SHRINK_LISTS)
    for j in range(len(case['files'])):
        if len(case['files']) > 1:
            yield dict(case, files=case['files'][:j] + case['files'][j + 1:])
