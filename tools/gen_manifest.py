#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'online reference-model monitor: every operator call shadowed by sparse-polynomial arithmetic over BTreeMap, all spellings compared',
 'C02': 'structural-invariant monitor on every returned value, with shadow model along operation chains',
 'C03': 'reference printer and independent parser (round trip) on every printed value',
 'C04': 'reference-model monitor (coefficientwise residues, repeated products)',
 'C05': 'dense long-division oracle plus step-budget monitor (allocations, CPU, memory)',
 'C06': 'dense Euclid oracle plus step-budget monitor',
 'C07': 'reference-model and homomorphism monitors',
 'C08': 'reference-model monitor, linearity and product rule',
 'C09': 'reference reduction and class-membership monitor',
 'C10': 'monitor with independent recurrence, curve equation, and point multiplication on every point of small curves',
 'C11': 'power-series reference model (dense, product form) and prefix monitor',
 'C12': 'reference-model monitor',
 'C13': 'divisor enumeration oracle with checked overflow build',
 'C14': 'oracle by construction: systems made from a chosen solution',
 'C15': 'bijection and total-order monitor',
 'C16': 'published modular polynomials, Kronecker congruence, symmetry and q-expansion oracles',
 'C17': 'brute-force point enumeration oracle; modular arithmetic membership oracle',
 'C18': 'independent group-law model and algebraic-law monitors',
 'C19': 'repeated-addition and projective reference models, step-budget monitor',
 'C20': 'brute-force orders and torsion oracle',
 'C21': 'independent Jacobian-coordinate secp256k1 implementation and standard constants as oracle',
 'C22': 'defining congruence oracle and isomorphism-invariance monitor',
 'C23': 'independent Velu model, point counts and modular-polynomial roots',
 'C24': 'published modular polynomials with roots found by trial of every field element',
 'C25': 'brute-force trace of Frobenius oracle, step-budget monitor',
 'C26': 'repeated-product oracle, defining congruence of inverses',
 'C27': 'Bezout identity oracle',
 'C28': 'congruence oracle',
 'C29': 'reference order and leading-term monitors',
 'C30': 'differential histories in separate processes (order, repetition, isolation, threads), operand snapshots, Miri, ThreadSanitizer and AddressSanitizer over a concurrent workload',
 'C31': 'refusal monitor: out-of-domain calls must panic, in builds with and without overflow checks',
 'C32': 'reference record of the setter sequence',
}
NOTE = {
 'C30': 'Held on the histories, interleavings and sanitizer runs counted in the evidence. Miri, TSan and ASan need the nightly toolchain; a leg that cannot run is reported as not run in the evidence, the differential histories always run.',
 'C31': 'Held on the calls counted in the evidence; the families of refused calls are listed in DESIGN.md.',
}
DEF = ('Held on the monitored executions counted in the evidence (half of them in a build with overflow and debug assertions, half in a plain release build), '
       'including the exhaustive small scopes listed there; not a proof. Trusts num-bigint, the compiler and the reference models in monitor/src.')
checks = []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': 'runtime monitoring: ' + T[p], 'level': 'exploration', 'level_note': NOTE.get(p, DEF)})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: all state of the library is visible at its public boundary; monitors link the unmodified crate', 'source_commits': []},
     'checks': checks, 'not_applicable': [],
     'notes': 'VERIF_SEED selects the workloads. Replay a reported violation with: target/monitor/debug/ecmon replay <path> alt=target/monitor/release/ecmon'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
