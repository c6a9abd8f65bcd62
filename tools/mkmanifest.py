#!/usr/bin/env python3
# Generates MANIFEST.json from the scenario list below and properties.jsonl.
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
exec(open(V+"/tools/claims.py").read())   # CLAIMS: id -> (technique, note); NA: id -> reason
m={"version":1,"setup_cmd":"python3 sim/build.py build",
 "hooks":{"guard":"none","enable":"No hook is needed: the library is compiled unmodified from /repo's working tree and its libc calls are redirected to the simulator in the object files (objcopy --redefine-syms).","source_commits":[]},
 "checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in CLAIMS:
        t,n=CLAIMS[i]
        m["checks"].append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"./check %s --thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":"exploration","level_note":n})
    else: m["not_applicable"].append({"property":i,"reason":NA[i]})
m["notes"]="See DESIGN.md. Every check builds the simulator (build/sim) from /repo, searches seeded runs, minimises and replays a failure in a fresh process before reporting it."
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
