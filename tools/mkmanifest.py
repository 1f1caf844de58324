#!/opt/veriftools/pyvenv/bin/python3
"""writes MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'default': ('generated operation histories against a reference model (Hypothesis)',
                'Search, not proof: every generated history ran against the library rebuilt from /repo, each in a process of '
                'its own, and matched the reference model. Trusts the model, gcc and the kernel; x86-64 Linux only.'),
    'C11': ('generated histories with injected mapping faults and limits against a reference model (Hypothesis)',
            'Search over requests, fault points and limits; faults are injected at mmap and mprotect. Trusts the model.'),
    'C12': ('differential: generated regions and calls against a byte-level model of the C standard (Hypothesis)',
            'Search over layouts of regions inside a fenced arena, small sizes mostly. Trusts the byte model.'),
    'C13': ('generated operator, handler, constructor and destructor-tree cases against a model (Hypothesis)',
            'Search, not proof. Trusts the model and g++ code generation for new and delete expressions.'),
    'C16': ('generated thread sections with seeded delays at system calls, history invariants, replayed (Hypothesis)',
            'Search over programs and schedules: only the interleavings the delays and the kernel produce are seen.'),
    'C17': ('generated messages, outputs and fatal paths against a printf model (Hypothesis)',
            'Search, not proof. Trusts the formatting model.'),
    'C19': ('differential: generated programs run in several builds, with and without the library (Hypothesis)',
            'Search over generated programs; equality of output and exit status with the system allocator.'),
    'C20': ('generated option combinations, each built and driven by generated histories (Hypothesis)',
            'Search over option sets and histories. Trusts the model.'),
    'C21': ('generated histories, trace and statistics parsed and compared with the model (Hypothesis)',
            'Search, not proof. Trusts the model.'),
    'C22': ('generated programs over the header macros against their expected observations (Hypothesis)',
            'Search over generated programs. Trusts gcc.'),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        na.append({'property': i, 'reason': 'its check is not built yet'})
        continue
    t, n = TECH.get(i, TECH['default'])
    checks.append({'property': i, 'quick_cmd': './check.py %s' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'exploration', 'level_note': n})
m = {'version': 1, 'setup_cmd': './tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks build its sources as they are (own build directories under /verif/.build).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
