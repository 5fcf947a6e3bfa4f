#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses present and the table below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'generated lattices; round-trip and reference numbering',
 'C02': 'generated out-of-lattice positions; metamorphic period shifts against reference modulo',
 'C03': 'generated valid and invalid requests to every query; refusal oracle',
 'C04': 'generated lattices and cutoffs; brute-force neighbour oracle',
 'C05': 'generated lattices and cutoffs; brute-force table oracle and symmetry',
 'C06': 'generated site pairs; minimum-image reference, metric and translation relations',
 'C07': 'generated planes; membership for every draw, coverage and Chernoff bounds on many draws',
 'C08': 'generated energies; independent formula, detailed balance and scaling relations',
 'C09': 'stateful generation of queue histories against a multiset model',
 'C10': 'stateful generation of walker histories against a field model',
 'C11': 'stateful generation of container histories against a map model',
 'C12': 'stateful generation of rate histories against a map model',
 'C13': 'generated sites; distribution bounds (Chernoff, DKW) and seed reproducibility',
 'C14': 'stateful generation of arrival and departure histories against a counter model',
 'C15': 'stateful generation of container histories, differential against individual sites',
 'C16': 'stateful generation of container histories, differential against individual clusters',
 'C17': 'generated rate networks; independent power iteration and stationarity residual, metamorphic relabelling and time units',
 'C18': 'generated rate networks; exit probabilities recomputed from reported occupation',
 'C19': 'generated rate networks and setter orders; recomputed escape time, scaling relation',
 'C20': 'generated interleavings of walkers; invariant per piece, DKW and Chernoff bounds on total stays',
 'C21': 'generated change histories; Chernoff bounds on sampled moves against reported probabilities',
 'C22': 'generated build histories; differential against a cluster built afresh',
 'C23': 'generated visit histories against an expected-visits model',
 'C24': 'stateful generation of arrivals and departures against a set model',
 'C25': 'stateful generation of systems and hop schedules against an occupancy model',
 'C26': 'generated systems run twice; differential comparison of whole histories',
 'C27': 'generated basins; Monte Carlo estimates against the exact master equation',
 'C28': 'stateful generation of systems and schedules; invariants over the history of clusters',
 'C30': 'generated networks; independent reachability oracle',
 'C31': 'generated containers; edges compared with the stored rates',
 'C32': 'stateful generation of systems and schedules; full reference model of when and what is coarse grained',
 'C33': 'generated seeded systems; metamorphic relation under change of the unit of time',
 'C34': 'generated many-walker systems; frequencies against the exact transient solution of the joint master equation',
 'C35': 'generated objects; printed text read back and compared with the queries',
 'C36': 'stateful generation of histories; original and copy compared, alone and in step',
 'C29': 'generated misuse sequences; refusal oracle and differential against an undisturbed system',
}
NOTE = ('Random structured generation with integrated shrinking over the real code (ASan+UBSan build of /repo), '
        'fixed number of cases per seed. Assurance is by search: no violation on the cases generated. ')
SYS = 'Built with a stand-in for the UGLY graph library (absent here), which is trusted. '
STAT = 'Sampling laws are judged by exact tail bounds with a false-alarm probability below 1e-11 per comparison. '
have = sorted(os.path.basename(f)[:3] for f in glob.glob(V + '/harness/C??_*.cpp'))
checks, na = [], []
for k, t in sorted(T.items()):
    if k in have:
        note = NOTE + (STAT if k in ('C07', 'C13', 'C20', 'C21', 'C27', 'C34') else '') + (SYS if 'C25' <= k <= 'C34' else '')
        checks.append(dict(property=k, quick_cmd='python3 check.py %s quick' % k, thorough_cmd='python3 check.py %s thorough' % k,
                           technique='property-based testing: ' + t + ' (thorough adds libFuzzer over the same choices)',
                           level='exploration', level_note=note.strip()))
    else:
        na.append(dict(property=k, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 check.py --build-only', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo; see DESIGN.md. fixed: entries are in known_findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
