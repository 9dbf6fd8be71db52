#!/usr/bin/env python3
# regenerates MANIFEST.json from harness/*/config.json and dev/na.json
import json,glob,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na=json.load(open('/verif/dev/na.json')) if os.path.exists('/verif/dev/na.json') else {}
checks=[];nal=[]
for p in props:
    i=p['id']; c='/verif/harness/%s/config.json'%i
    if os.path.exists(c) and i not in na:
        cfg=json.load(open(c))
        checks.append({"property":i,"quick_cmd":"bash check.sh %s"%i,"thorough_cmd":"bash check.sh %s"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"symbolic execution of the Go SSA of the current source, path conditions and assertions decided by z3, counterexamples replayed natively",
          "level":"model_checking",
          "level_note":cfg.get("level_note") or "Bounded: holds for every input within the stated bounds ("+"; ".join(e.get("bounds","") for e in cfg["entries"] if e.get("bounds"))+"). Trusts the SSA translation and the engine's models of library functions (validated by native replay of sampled paths) and the SMT solver."})
    else:
        nal.append({"property":i,"reason":na.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":nal,
 "notes":"no hooks: harnesses are laid over /repo with go's -overlay, /repo's tracked files are not changed"},open('/verif/MANIFEST.json','w'),indent=1)
