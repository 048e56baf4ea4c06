"""Writes /verif/MANIFEST.json. Run by hand when a check is added."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import importlib
PY = '/opt/venv/bin/python'
NOTES = {
 'gas': 'Seeded exploration: the real front end, parser, code generator, generated code (Numba modules run as plain Python, Fortran compiled by '
        'gfortran without f2py) and batch loop run in one simulated process; the ODE solver is a scripted stand-in that decides all calls. '
        'A pass means no counterexample among the runs counted in the evidence; generality over inputs is sampling, not proof. ',
 'disk': 'Seeded exploration over histories of simulated processes on a simulated disk that keeps only synced data over a power cut. A pass '
         'means no counterexample among the runs counted in the evidence. ',
}
EXTRA = {
 'C01': 'Given one call, the right-hand side is a function of its input: the simulated dimension is the solver call history and the process life cycle, the rest is generated input. Trusts the reference model (dst/refmodel.py, dst/rates.py) and that Numba compiles Python faithfully.',
 'C02': 'As C01; the compiled routines are called through an emulation of the f2py wrapper (argument copy-in/out rules checked in dst/f2pyemu.py). OpenMP form is checked under the simulated team.',
 'C03': 'As C01; the Jacobian is compared with the analytic derivative of the reference model, entry by entry.',
 'C04': 'As C01; expressions come from a grammar and are evaluated by an independent evaluator with error bounds.',
 'C05': 'Virtual clocks only; probe reactions make every photolysis rate visible.',
 'C07': 'As C01; probe reactions proportional to RO2 make the total visible.',
 'C09': 'The solver is an accurate scipy integrator; comparisons are skipped (and counted) where a slightly moved start moves the reference result too.',
 'C12': 'Quick draws crash points; thorough covers more. Disk model: dst/simdisk.py (writes after the last fsync/close may be lost, torn or zeroed at a power cut; process death keeps them).',
 'C14': 'Every disk operation of a drawn run is failed in turn with a drawn error (enumeration within the run; the runs are sampled), plus compiler and solver failures.',
 'C22': 'Hash seeds need another interpreter start: runs are repeated in helper interpreters with drawn PYTHONHASHSEED.',
}
DISK = {'C10', 'C11', 'C12', 'C13', 'C14', 'C21', 'C22', 'C25', 'C26'}
checks = []
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
na = []
for p in props:
    i = p['id']
    try:
        m = importlib.import_module('dst.props.' + i.lower())
    except ModuleNotFoundError:
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    note = getattr(m, 'NOTE', None) or NOTES['disk' if i in DISK else 'gas'] + EXTRA.get(i, '')
    checks.append({'property': i, 'quick_cmd': '%s -m dst check %s --tier quick' % (PY, i),
                   'thorough_cmd': '%s -m dst check %s --tier thorough' % (PY, i), 'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'deterministic simulation with fault injection', 'level': m.LEVEL, 'level_note': note.strip()})
json.dump({'version': 1, 'setup_cmd': '%s -m dst setup' % PY, 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are the imports (assimulo, numba, umansysprop), the file system calls and the compiler command, which the simulator replaces at run time.'},
          open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
