"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'P20': 'A pure function of the coordinates and the two reference systems: no schedule, clock, I/O, fault or second party for '
           'a simulator to control. (That parallel ranks and later operations see consistent systems is part of P01 and P08.)',
    'P21': 'A pure function of one in-memory array; the numpy result depends on nothing a simulator could vary. (Tiling and '
           'distribution of calculations, which do, are P01 and P09.)',
    'P22': 'A pure conversion of numbers and datetimes through cftime; nothing to schedule or to fail.',
    'P23': 'A pure function of the keyword arguments or the query string.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check {} --tier quick'.format(i),
                       'thorough_cmd': './check {} --tier thorough'.format(i),
                       'technique': 'deterministic simulation with fault injection: seeded search over schedules, message delays, '
                                    'faults and inputs with one-integer-per-decision replay',
                       'level': 'exploration',
                       'level_note': 'Real ocgis code for every rank in one process; see DESIGN.md section "{}" and '
                                     'evidence/{}.json for runs, faults and reach.'.format(i, i)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hook in /repo: the seams are mpi4py, netCDF4, fiona, the C library and the clock',
                     'source_commits': []}}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
