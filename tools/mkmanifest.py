"""Writes MANIFEST.json from the checks that exist."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C30': 'masked-array helpers are pure functions of one array: no '
           'scheduling, time, I/O, randomness or history to simulate',
    'C31': 'a pure arithmetic identity of two stateless functions: nothing a '
           'simulator could schedule or fault',
    'C32': 'pure geometry of array constructors: no nondeterminism to put '
           'behind a seam',
}
NOTE = {
}
DEFAULT = ('Seeded search over simulated runs of the real code under injected '
           'faults and schedules, judged by an independent reference; no '
           'violation in the runs explored is evidence, not proof. Trusted: '
           'the simulator, the reference model, numpy/scipy/PIL/lxml/'
           'matplotlib.')


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    built = {os.path.basename(p)[:-3].upper() for p in glob.glob(
        os.path.join(HERE, 'dst', 'props', 'c[0-9][0-9].py'))}
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in built:
            checks.append({
                'property': i,
                'quick_cmd': './check.sh check %s quick' % i,
                'thorough_cmd': './check.sh check %s thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'deterministic simulation with fault injection '
                             '(seeded schedule/fault search)',
                'level': 'exploration',
                'level_note': NOTE.get(i, DEFAULT)})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': './check.sh list', 'checks': checks,
         'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
