#!/usr/bin/env python3
# Writes MANIFEST.json. Run from /verif.
import json
NOTE="Every obligation generated from /repo's current source against contracts/*.gcv is discharged by an SMT solver (z3, cvc5) on every run; function by function, for all inputs. Assumed: listed in the evidence file (trusted_base): library contracts, machine-model assumptions, the verifier itself. A bounded input search against an independent oracle runs beside it to supply failing inputs and is never counted as proof."
CLAIM={}
exec(open('tools/claims.py').read())
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
checks=[]
for p in props:
    if p in CLAIM:
        extra=CLAIM[p]
        checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json",
          "technique":"contract-based deductive verification of the Go source (SSA weakest-precondition style obligations, SMT)","level":"proof","level_note":(extra+" " if extra else "")+NOTE})
na=[{"property":p,"reason":NA.get(p,"contracts not finished yet")} for p in props if p not in CLAIM]
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"gocv/ is the verifier (Go, vendored x/tools); contracts/ the specifications; harness/ the bounded input search; DESIGN.md explains."},open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
