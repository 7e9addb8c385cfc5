#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
H = 'exhaustive exploration of operation histories of the real code against a reference model'
S = 'stateless exploration of thread schedules of the real code (controlled scheduler, preemption bound) with a state monitor'
I = 'exhaustive enumeration of a bounded input space of the real code against a reference model'
T = {'C04': 'exhaustive batch enumeration and ' + S, 'C15': S, 'C16': S, 'C06': I, 'C07': I, 'C10': I, 'C11': I, 'C12': I, 'C14': I,
     'C17': 'exhaustive enumeration of similarity graphs, point orders and call sequences on the real code against the stated invariants',
     'C18': 'exhaustive enumeration of load histories, reader chunkings and read-error positions, plus schedule exploration of the parallel load',
     'C21': 'exhaustive enumeration of rejected calls (every entry point, length and batch position) with full state comparison after each'}
NOTE = {
 'C04': 'All batches within bounds; all interleavings of the worker threads (sequentially consistent) within the preemption bound.',
 'C15': 'All interleavings within the preemption bound of small similarity graphs; sequential consistency assumed; freed memory is quarantined and checked at every atomic access.',
 'C16': 'As C15, for the progress outcome.',
 'C07': 'All pairs of subsets of small universes; the tolerance is statistical but the computation is deterministic.',
 'C19': 'All bounded histories and option combinations on the built extension module; rayon schedules inside the module are not controlled here (C04 does that).',
 'C20': 'All bounded histories and option combinations on the built extension module; rayon schedules inside the module are not controlled here (C04 does that).'}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='bin/check --setup',
  checks=[dict(property=i, quick_cmd=f'bin/check {i}', thorough_cmd=f'bin/check {i} --tier thorough', evidence_file=f'evidence/{i}.json',
               technique=T.get(i, H), level='model_checking',
               level_note=NOTE.get(i, 'Complete within the stated bounds (small alphabets and depths, plus size sweeps), on the real code compiled from the working tree; nothing is claimed beyond the bounds.')) for i in ids],
  not_applicable=[],
  notes='No hooks in /repo: the crate is compiled from the working tree against a shadow std and a shim rayon (RUSTC_WRAPPER and a cargo patch, both in /verif).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
