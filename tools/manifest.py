#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
SCHED="stateless model checking of the freshly generated decorator under a controlled scheduler and virtual clock (sleep-set partial-order reduction, exhaustive within bounds)"
schednote="Exhaustive over the listed bounded scenarios on the real generated code (go/ast-instrumented: channels, select, sync, atomic, time, context and shared variables become scheduler steps). Trusts the vrt runtime (self-tested against unreduced exploration) and the scripted implementations; inputs and thread counts beyond the bounds are not covered."
C={}
for i in ["D02","D03","D04","D05","D06","D07","D08"]:
    C[i]=(SCHED,schednote)
exec(open('/verif/tools/manifest_more.py').read())
checks=[dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=C[i][0],level="model_checking",level_note=C[i][1]) for i in ids if i in C]
na=[dict(property=i,reason="check not built yet") for i in ids if i not in C]
json.dump(dict(version=1,setup_cmd="bash -c '. ./env.sh && cd mc && go build -buildvcs=false -o /dev/null ./cmd/check && cd ../vrt && go vet ./...'",checks=checks,not_applicable=na,
 notes="Checks drive the command line tool and the code it generates; /repo carries no hooks. check.sh ID quick|thorough [--replay FILE]."),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
