import json
PY='/opt/venv/bin/python -m hgsim check '
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
tech={
'C01':'deterministic simulation: every recorded choice sequence re-executed in another process under another clock, entropy, hash seed and heap; outcomes compared',
'C02':'deterministic simulation: seeded interleaving of caller threads at library-line granularity, compared with each draw executed alone',
'C03':'deterministic simulation with fault injection: user exceptions, exhaustion, rejections and asynchronous interrupts placed inside draws; caller-side outcome checked',
'C04':'deterministic simulation with fault injection: crash/fault histories over shared strategies, later draws compared with fresh-process reference draws',
'C05':'deterministic simulation with fault injection: corrupted recordings, adversarial and exhausted choice sources; bounded progress and outcome class checked',
'C06':'deterministic simulation: delivered geometries mutated between draws; aliasing scan and comparison with fresh-process reference draws',
'C19':'deterministic simulation: tenants with own contexts interleaved in one process; classes, called functions and fresh-process reference draws checked',
'C20':'deterministic simulation: compositions of draws in one test case with faults and in-place mutation; every part compared with its own slice drawn alone in another process',
'C16':'deterministic simulation of whole Hypothesis sessions with storage faults, crashes and restarts over a simulated example database',
'C17':'deterministic simulation: fault bursts followed by fault-free suffixes; liveness (served, every feature reached) over pooled seeded runs',
}
geo='deterministic simulation with fault injection: seeded choice streams, corrupted recordings, faults and interleavings; exact-arithmetic reference oracle on every delivery'
checks=[]
for i in [*range(1,18),19,20]:
    c=f'C{i:02}'
    note={'C17':'Seeded statistical liveness: an absent feature is reported only if its calibrated frequency (times 0.55) makes missing it less likely than 1e-5; calibration committed in hgsim/availability.json.',
          'C16':'Seeded search over sessions, storage faults and crashes. Real Hypothesis engine; span labels, clock, entropy and database are seams.'}.get(c,
      'Seeded search over simulated worlds: evidence on the explored runs, not proof. Trusts the simulator kernel'+(' and the exact integer oracles' if c in tech and 0 or c not in tech else '')+', exact rational coordinates, switches/interrupts at library line boundaries.')
    checks.append({'property':c,'quick_cmd':PY+c,'thorough_cmd':PY+c+' --thorough','technique':tech.get(c,geo),'level':'exploration','level_note':note})
m={'version':1,'setup_cmd':'/opt/venv/bin/python -c "import hypothesis, hypothesis_geometry.planar, hgsim.runner"','checks':checks,
'not_applicable':[{'property':'C18','reason':'Argument diagnosis happens once, when a strategy is constructed, and is a pure function of the arguments: no schedule, fault, history, randomness, clock or I/O can influence it, so there is nothing to simulate.'}],
'notes':'No hooks in /repo: every seam (choice source, coordinate strategies, example database, clock, entropy, locks, object hashes, line-level scheduling) exists in Hypothesis or Python. Replay: /opt/venv/bin/python -m hgsim replay FILE. Determinism self-test: /opt/venv/bin/python -m hgsim selftest N.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
