#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and `ksim list`."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
b = subprocess.check_output(['bash', here + '/harness/build.sh'], text=True).strip()
have = subprocess.check_output([b, 'list'], text=True).split()
extra = {
 'C01': 'oracle: independent pose model over the positions and origins each joint may have had during the call',
 'C02': 'oracle: independent jacobian, mass, link-pose and velocity models',
 'C03': 'oracle: linearizability search per joint register',
 'C04': 'oracle: limit ranges on every observation, results of every setter',
 'C05': 'oracle: linearizability search per leader/follower pair of registers',
 'C06': 'oracle: independent pose model, untouched joints compared bit for bit',
 'C07': 'oracle: positions before and after, error expected from the inputs',
 'C08': 'oracle: conditioning computed independently; bounded progress',
 'C09': 'oracle: deadlock and step-bound detection of the scheduler, panics',
 'C10': 'fault: panics of threads that hold a joint; oracle: results of all other calls',
 'C11': 'oracle: sequential model of the copy, candidate values of the original',
 'C12': 'oracle: independent URDF model, for f64 and f32',
 'C13': 'faults: simulated file system and child processes; oracle: outcome of the fault-free parse of the same bytes',
 'C14': 'oracle: live-allocation count of tagged joints at every quiet point',
 'C15': 'oracle: candidate relations during the run, exact tree at the end',
 'C16': 'fault: callbacks that re-enter, stall and panic',
 'C17': 'oracle: the same solves alone',
}
checks = []
for p in props:
    i = p['id']
    if i not in have: continue
    checks.append(dict(property=i, quick_cmd=f'bash check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i} --tier thorough',
      evidence_file=f'evidence/{i}.json',
      technique='deterministic simulation: seeded search over schedules, workloads and faults; ' + extra[i],
      level='exploration',
      level_note='Seeded sampling of simulated executions of the real k code (std locks, atomics, clocks, files, processes and hash seeds behind a simulated std); a clean batch is evidence, not proof. Trusts the simulator, the reference model and that k reaches shared state only through std.'))
na = [dict(property=p['id'], reason='no check yet') for p in props if p['id'] not in have]
m = dict(version=1, setup_cmd='bash setup.sh',
 hooks=dict(guard='none', enable='No change to /repo: harness/build.sh compiles k and urdf_rs with RUSTC_WRAPPER=harness/rustc-wrap.sh, which adds --extern std=<simstd> so that std locks, atomics, time, files and processes are those of the simulator.', source_commits=[]),
 checks=checks, not_applicable=na,
 notes='See DESIGN.md. bash check.sh replay <file> re-executes a recorded violation. The commits in /repo are repairs (fix:) only.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1); open(here + '/MANIFEST.json', 'a').write('\n')
