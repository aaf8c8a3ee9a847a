"""writes MANIFEST.json from properties.jsonl and the contract files present"""
import json
import os
H = '/verif/'
props = [json.loads(x) for x in open(H + 'properties.jsonl')]
NA = {
    'C23': 'randomised quasi-Monte-Carlo integration in Fortran with a statistical error estimate: the guarantee is probabilistic and about floating-point quadrature; no contract over one call decides it and no deductive verifier here reads Fortran',
    'C24': 'the conversion is an FFT of sampled data (numpy.fft is outside the modelled numpy) with truncation, windowing and interpolation, so the round trip holds only approximately; an exact contract would be false and an error bound needs numerical analysis beyond SMT',
    'C25': 'a statement about the distribution of random output; contracts speak about single calls',
    'C26': 'normalisation is an integral over the real line of sums of kernels; integrals are outside the logic of the verifier and the FFT/DCT evaluation is approximate',
    'C27': 'convergence of quadrature for all smooth integrands is an analysis theorem with asymptotic error terms; the reported error is an estimate, not a bound, so the exact contract is false',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(H + 'contracts/%s.py' % i) and i not in NA:
        ns = {}
        checks.append(dict(
            property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
            thorough_cmd='python3-vt check.py %s --tier thorough' % i,
            technique='contract-based deductive verification: contracts and loop invariants on the real functions (extracted from the current source on every run), obligations discharged by a ring normaliser, z3 and cvc5; counterexamples replayed on the real code',
            level='proof',
            level_note='Holds for all inputs within the stated preconditions over exact real/integer arithmetic. Trusted: the extraction and numpy model in vf/, the solvers, listed assumptions in the evidence; floating-point rounding is not modelled. A concrete search of the same postconditions on the real code runs beside the proof and supplies failing inputs.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet claimed')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5, jsonschema" && /opt/venv/bin/python -c "import numpy"',
         checks=checks, not_applicable=na)
json.dump(m, open(H + 'MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), len(na))
