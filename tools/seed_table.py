"""Rewrites section 4 of DESIGN.md from seeded/*/meta.json (authoring tool; no check reads seeded)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'b14-tls-skip-proj': 'missed first; C14 cases with tolerance truncation added',
    'b20': 'missed first; C20 shapes added', 'b24': 'missed first; magnitudes added to C24', 'b25': 'missed first; C25 data-kind changes added',
    'b40-trapz-shared': 'missed first; several inner products used alternately',
    'b43-era-view': 'missed first; C07 looks at views handed to ERA', 'b48-dmd-tol-real': 'missed first; slowly decaying data added',
    'b47-lin-transposed': 'missed first; coefficient forms added to C02',
    'b57-dmd-direct-rtol': 'missed first; sequential data added to C15',
    'b87-svd-msg': 'missed first; decompositions that keep nothing added to C27',
    'b54-svd-tall': 'needs the large arrays',
    'f09-restart': 'missed first; repeated lines and special signals added to C09',
    'f18-units': 'missed first; outputs in other units added to C18',
    'f21-real-evals': 'missed first; non-normal and triangular arrays added to C21',
    'f04-root': 'missed first; processors of different kinds added to C04',
    'e25-get-skip': 'missed first; decompositions restored into used objects added to C25',
    'e13-slow-zero': 'missed first; decayed modes added to C13', 'e21-nonnormal': 'missed first; non-normal arrays added to C21',
    'e11-weight-floor': 'missed first; weights stretched over decades added', 'e23-small-ic': 'missed first; units added to C23',
    'e01-wrap-count': 'missed first; hundreds of vectors added to C01',
    'h01-int-ip': 'missed first by C01 (not by C20); the inner product of the library used in C01',
    'g05-running-total': 'missed first; bound of C05 tightened to the remaining tasks, giant weights added',
    'g14-second-trunc': 'missed first; max_num_eigvals without tolerances added to C13 and C14',
    'g12-floor': 'missed first; impulse responses in tiny units added to C12',
    'g32-scale-inplace': 'missed first by C32 (not by C07, C08); scale factors without base vector added',
}
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    note = NOTES.get(i) or NOTES.get(i.split('-')[0], '')
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), note))
s = open(V + '/DESIGN.md').read()
i = s.index('## 4. Planted bugs')
s = s[:i] + '''## 4. Planted bugs

Each is a patch in `seeded/<id>` with a demonstration. All build, pass the stable tests, and are caught by the quick check of the
property they break (the `property` column), unless the note says otherwise. Notes record what had to be strengthened.

| id | property, caught by | what it breaks | needs | note |
|---|---|---|---|---|
''' + '\n'.join(rows) + '''

Besides these, single-token mutants of all modules (generated from the syntax tree, outside `/verif`) were run against the checks of
the module they touch; survivors were either equivalent or led to the strengthening recorded above.
'''
open(V + '/DESIGN.md', 'w').write(s)
