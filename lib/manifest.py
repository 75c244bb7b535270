#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
REF = 'exhaustive enumeration of the real code over a bounded input space, each answer compared with an independent reference model'
tech = {p['id']: 'bounded exhaustive exploration of the real code against a reference model' for p in P}
tech['C20'] = 'bounded exhaustive exploration: every call of the space run in the compilers\' constant evaluators and on the machine, compared bit for bit'
tech['C21'] = 'bounded exhaustive exploration: the same space run in every build configuration, answers compared pairwise'
tech['C22'] = 'bounded exhaustive exploration over all argument type combinations: promoted call against converted call'
tech['C23'] = 'bounded exhaustive exploration of related call pairs and triples on the real code'
tech['C25'] = 'bounded exhaustive exploration of the instrumented real code (trapping sanitizer build, hang and stack monitor)'
exact = 'model: exact integer / bit arithmetic of the host'
acc = 'model: glibc long double (float, double) and libquadmath binary128 (long double)'
boost = 'model: Boost.Math in long double'
note = {}
for i in ('C01', 'C02', 'C03', 'C04', 'C05'): note[i] = exact
for i in ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C24'): note[i] = acc
for i in ('C15', 'C16', 'C17', 'C18'): note[i] = boost
note['C19'] = 'model: a table of required classes of results (NaN, infinity, value, finite) per function'
note['C20'] = 'model: the machine\'s own evaluation of the same call; g++ and clang++, C++11 and C++17 (thorough: also 14 and 20)'
note['C21'] = 'model: agreement of 12 builds (thorough 18); trusts that two compilers do not miscompile alike'
note['C22'] = 'model: the same call with converted arguments'
note['C23'] = 'model: the symmetric call'
note['C25'] = 'monitor: UBSan traps, SIGSEGV handler on an alternate stack, per-call watchdog'
M = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[],
         notes='No hooks in /repo. run.py compiles /repo/include afresh in a scratch directory on every run. known_findings.txt lists the repaired defects.')
for p in P:
    i = p['id']
    M['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=tech[i], level='model_checking',
        level_note='Holds on every input tuple of the stated finite space (float/double/long double, integral types; sizes in the evidence), in each build; ' + note[i] + '. Inputs between the enumerated ones are not covered. Trusts the compilers, and the reference model where one is used.'))
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
