"""Write MANIFEST.json from the registered harnesses."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'lib'))
import check
import cside

PY = ('symbolic execution of the real Python source (z3 decides every branch and assertion '
      'over symbolic inputs), every path replayed on the real builds')
C = ('bounded model checking of the real C source with CBMC over a nondeterministic model of '
     'the interpreter API, counterexamples replayed on the built extension')
NA = {}
PENDING = 'the harness for this property is not built yet'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    reg = check.registry_of()
    checks, na = [], []
    for p in props:
        i = p['id']
        py = [h for _, h in reg if i in h.props]
        c = cside.jobs_for(i, 'quick')
        if i in NA or not (py or c):
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
            continue
        how = ' and '.join(x for x, y in ((PY, py), (C, c)) if y)
        note = []
        if py:
            note.append('every feasible path of %d harness(es) within the stated input sizes; '
                        'inputs outside those bounds are not covered' % len({h.func for h in py}))
        if c:
            note.append('every slot function of the C source within the loop and object bounds '
                        'of the interpreter model')
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': how,
            'level': 'model_checking',
            'level_note': '; '.join(note) + '. See DESIGN.md.'})
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': checks,
         'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', [x['property'] for x in na])


main()
