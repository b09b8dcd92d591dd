import sys, json, subprocess
sys.path.insert(0,'/verif/sim')
from checks import CHECKS
NA = {
 'C30':'A pure function of one image: no schedule, clock, I/O, fault or other party decides the outcome, so a simulated environment has nothing to vary. (That results do not depend on the environment, on earlier uses or on other threads is claimed as C03-C05.)',
 'C31':'A pure numerical approximation property of a table look-up: no schedule, history, fault or I/O can affect it; deciding it needs numerical analysis or input sampling, not simulation.',
 'C32':'Pure closed-form and iterative linear algebra on small matrices: no nondeterminism or faults to simulate.',
 'C33':'Deterministic algorithms of one input: the partition property is a function of the input alone; nothing in it depends on schedules, histories, faults or randomness.',
 'C34':'What a call with valid arguments returns is a function of its arguments alone: no schedule, history or fault decides it, so a simulated environment has nothing to vary. (That failing and interrupted calls leave no trace, and that results do not depend on earlier calls, is claimed as C19; the computation itself is the C library, see C30-C33.)',
}
cover = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NOTE = {}
checks=[]
for p in sorted(CHECKS):
    c=CHECKS[p]
    checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick'%p, thorough_cmd='python3 run.py %s --tier thorough'%p, evidence_file='evidence/%s.json'%p,
      technique='deterministic simulation with fault injection: seeded search over '+c['search'], level=c['level'], level_note=c['note']))
na=[dict(property=k,reason=v) for k,v in NA.items()]
for p in cover:
    if p not in CHECKS and p not in NA: na.append(dict(property=p, reason='check under construction'))
m=dict(version=1, setup_cmd='python3 sim/build.py', hooks=dict(guard='none', enable='No hooks in /repo: every seam is an existing function pointer, a symbol renamed in the compiled objects (objcopy --redefine-syms) or compiler instrumentation applied by /verif/sim/build.py; /repo has only fix: commits.', source_commits=[]),
  checks=checks, not_applicable=na, notes='See DESIGN.md. Replay: python3 run.py --replay FILE.')
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
