"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'P01': 'Every kill point is an event of the real training loop; the killed and resumed run is compared with an uninterrupted twin. Covers the explored configurations and kill sequences, not all.',
    'P02': 'Process-kill and power-loss model over real files; trusts the durability model described in DESIGN.md.',
    'P03': 'Oracle computes best model and stopping step from an uninterrupted history, independently of lambeq.',
    'P04': 'Failures at every place user code, model or disk can raise; not between arbitrary bytecodes.',
    'P05': 'Twin runs under clock faults and in-process histories, plus separate interpreters with other hash seeds.',
    'P06': 'Damaged, foreign and unreadable files against every model class.',
    'P07': 'Simulated disk and server; every crash point of an installation is reachable by the search.',
    'P08': 'Simulated HTTP transport below requests.Session; real requests/urllib3/tarfile code above it.',
    'P09': 'Simulated HTTP transport; real WebParser and CCGTree code.',
    'P10': 'Generated treebanks with an oracle that knows which entries were damaged.',
    'P11': 'Neural models are stubs; parser wrappers and chart parser are real.',
    'P12': 'Simulated disk, threads under a seeded scheduler.',
    'P13': 'Threads under a seeded line-level scheduler.',
    'P14': 'Whole command line in process over a simulated disk.',
    'P15': 'Threads under a seeded line-level scheduler; sequential twin as oracle.',
    'P16': 'Histories of applications against a fresh functor as oracle.',
    'P17': 'Seeded interleavings of iterators against a multiset oracle.',
    'P19': 'Differential runs of forked processes: an undisturbed one against one with another hash seed, heap, history, order, thread and clock.',
    'P20': 'Chains of forked processes with different hash seeds hand stored values, models and killed runs to each other; undisturbed twin and the receiving process\'s own values as oracle.',
    'P21': 'Exceptions raised at seeded lines of lambeq stop calls; undisturbed forked process and earlier settings as oracle.',
    'P18': 'Stub device with seeded job scheduling and failures; analytic counts as oracle.',
}
PURE = ('A pure function of its arguments: no scheduling, time, I/O, storage or fault can influence it, so there is '
        'nothing for a simulator to schedule or inject; the quantification is over inputs only.')
REASONS = {'P5': PURE, 'P6': PURE}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'dst', 'props', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': f'python3 check.py {i} --tier quick',
                'thorough_cmd': f'python3 check.py {i} --tier thorough',
                'evidence_file': f'evidence/{i}.json',
                'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults',
                'level': 'exploration',
                'level_note': NOTES[i]})
        elif i >= 'P50':
            na.append({'property': i, 'reason': PURE})
        else:
            na.append({'property': i, 'reason': 'The check for this property is not built yet.'})
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py',
               'checks': checks, 'not_applicable': na,
               'notes': 'No hooks were needed in /repo: every seam is a public '
                        'parameter or the Python standard library, patched in '
                        'the checking process only. Commits in /repo are '
                        'repairs of defects, listed in known_findings.txt.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
