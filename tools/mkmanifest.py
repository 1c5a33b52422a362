"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
METHOD = {
    'C01': 'expression trees vs dense oracle',
    'C02': 'generated matrices vs dense eigenvalues',
    'C03': 'generated grids and samples vs reference weights',
    'C04': 'generated inputs and bounds, invariants of the grid',
    'C05': 'generated kernels and distances vs formulas',
    'C06': 'generated kernels vs independent derivatives',
    'C07': 'generated kernel specifications vs dense oracle',
    'C08': 'generated models vs analytic error bound',
    'C09': 'generated likelihoods vs dense oracle',
    'C10': 'generated likelihoods with exact probe sets vs dense oracle',
    'C11': 'generated systems vs true residual and iteration recount',
    'C12': 'generated models vs dense oracle',
    'C13': 'generated models vs dense posterior',
    'C14': 'metamorphic relations over generated models',
    'C15': 'generated requests vs normal quantiles',
    'C16': 'metamorphic affine relation over generated models',
    'C17': 'stateful histories vs fresh model and dense oracle',
    'C18': 'near-miss mutation of generated specifications',
    'C19': 'generated priors and points vs reference densities',
    'C20': 'stateful histories vs bookkeeping model',
    'C21': 'generated objectives vs reference optimizer',
    'C22': 'differential runs over configurations and histories',
    'C23': 'generated models vs dense exact GP',
    'C24': 'generated mean functions vs reference',
    'C25': 'generated arrays and classes vs reference loops',
    'C26': 'argument snapshots over generated calls and histories',
    'C27': 'stateful assignment histories vs reference structure',
}
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(line)['id']
    checks.append(dict(
        property=i, quick_cmd='bin/check %s quick' % i,
        thorough_cmd='bin/check %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='property-based testing (Hypothesis): ' + METHOD[i],
        level='exploration',
        level_note='Held on every generated case within the bounds of '
        'DESIGN.md section 2; trusts the oracle in pbt/, numpy/scipy/paramz, '
        'and the stated floating-point tolerances. Not a proof: inputs '
        'outside the generated domain are not covered.'))
out = dict(
    version=1,
    setup_cmd='python3-vt -m compileall -q pbt/gens pbt/run.py '
    'pbt/client.py && /opt/pvenv/bin/python -c "import numpy, scipy, paramz"',
    checks=checks, not_applicable=[],
    notes='The checks import runlmc from /repo\'s working tree; no hooks in '
    '/repo. bin/replay FILE re-runs a replay file. Defects repaired in /repo '
    'are listed in KNOWN_FINDINGS.txt.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
