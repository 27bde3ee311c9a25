#!/usr/bin/env python3
"""Writes known_findings.json: recorded defects (findings) and repaired ones (fixed)."""
import json, subprocess, os
FIX = {  # commit -> (property, what failed)
 'ae1d5f2': ('C02', 'Categorical.marginalize mislabelled axes when the kept variables were listed in another order and dropped kept variables of cardinality one'),
 'd2d34ca': ('C05', 'Categorical.cancel applied the zero over zero rule by position, not per named assignment'),
 '5fff2e2': ('C01', 'Categorical.divide and cancel raised KeyError when the divisor has variables outside the dividend scope'),
 '2ffa128': ('C08', 'Categorical.equals broadcast tables of different cardinalities'),
 'f764a79': ('C11', 'SparseCategorical.potential ignored the given variable order and failed on implicit entries'),
 '9cf391b': ('C11', 'SparseCategorical.reorder lost a non-zero default'),
 '27a00ba': ('C10', 'SparseCategorical.reduce raised KeyError on a slice without stored entries and lost a non-zero default'),
 '14ac03a': ('C09', 'SparseCategorical.multiply and cancel ignored implicit entries with a non-zero default'),
 'dcd7609': ('C08', 'SparseCategorical.equals compared defaults that are not used by any assignment'),
 '6dccaf8': ('C10', 'SparseCategorical.marginalize ignored implicit entries with a non-zero default'),
 'f1b56a7': ('C06', 'SparseCategorical.normalize and weight ignored implicit entries with a non-zero default'),
 '4fe9be2': ('C07', 'SparseCategorical.kl_divergence and distance_from_vacuous ignored implicit entries'),
 '662d679': ('C19', 'Gaussian.equals reordered the factor it was given'),
 'dc3a134': ('C17', 'Gaussian.kl_divergence compared parameters by position when the variable orders differ'),
 '0a874c5': ('C19', 'Factor kept the var_names list it was built with'),
 '3369553': ('C19', 'Categorical kept the cardinalities list it was built with'),
 '3c15d23': ('C19', 'SparseCategorical kept the cardinalities list it was built with'),
 '3ac137c': ('C21', 'GaussianMixture.equals depended on component order and ignored the tolerances'),
 'd20f3b8': ('C21', 'GaussianMixture copies and results lost the division method'),
 'c1ee3d7': ('C23', 'FactorizedFactor.multiply and divide left var_names out of step with the parts'),
 '3b78cc3': ('C23', 'FactorizedFactor.reduce failed on parts that are fully observed'),
 '27d277a': ('C23', 'FactorizedFactor merged only part of the dependent factors before marginalising and normalising'),
 '454a177': ('C27', 'ClusterGraph.get_posterior_joint failed before every path had passed a message'),
 'fae54aa': ('C32', 'ClusterGraph.get_marginal split a variable name longer than one character'),
 '5075d78': ('C25', 'NonLinearGaussian joint failed when all conditioning variables were observed'),
 '7483a64': ('C25', 'NonLinearGaussian.divide could not remove the complete conditioning factor'),
 '39bc022': ('C09', 'sparse operations failed on disjoint scopes when all assignments are compared'),
 '4e22b46': ('C33', 'recolouring accepted a missing edge whose name occurs inside another one'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
fixes = [l.split(' ', 1) for l in log.splitlines() if l.split(' ', 1)[1].startswith('fix:')]
missing = [h for h, s in fixes if not any(h.startswith(k) for k in FIX)]
assert not missing, missing
assert all(any(h.startswith(k) for h, _ in fixes) for k in FIX), [k for k in FIX if not any(h.startswith(k) for h, _ in fixes)]
out = {"findings": [
  {"property": "C26", "id": "gaussian-template-instances-are-marked-vacuous",
   "what": "every instance made by GaussianTemplate.make_factor is marked vacuous, so marginalising (or querying the moments of) an instance whose precision is positive definite gives a constant instead of the marginal of the described factor",
   "call_site": "veroku/factors/gaussian.py GaussianTemplate.make_factor (g_val._is_vacuous = True)",
   "why_not_fixed": "the flag is what lets improper linear Gaussian conditionals be marginalised inside cluster graphs (marked TODO upstream); a repair needs a properness test per marginalisation, which changes behaviour beyond a small patch"}],
  "fixed": [f"fixed: property={p} {c} {w}" for c, (p, w) in FIX.items()]}
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
