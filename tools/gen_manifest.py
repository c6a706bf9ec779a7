#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/jobs.py and properties.jsonl."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location("jobs", V + "/checks/jobs.py"); jobs = importlib.util.module_from_spec(sp); sp.loader.exec_module(jobs)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = getattr(jobs, "NOT_APPLICABLE", {})
checks = []
for p in props:
    i = p["id"]
    if i not in jobs.PROPS: continue
    checks.append({"property": i, "quick_cmd": "python3 sxcheck.py %s --tier quick" % i, "thorough_cmd": "python3 sxcheck.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the compiler IR, decided by Z3",
                   "level": "model_checking", "level_note": "every value inside the bounds: " + jobs.PROPS[i]["bounds"] + ". Nothing is claimed outside them."})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in jobs.PROPS]
m = {"version": 1, "setup_cmd": "make -C engine -j8", "hooks": {"guard": "none", "enable": "none: the library is compiled as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "setup builds the symbolic executor (engine/) against the installed LLVM 18 and Z3. Every check recompiles /repo/genex (C28, C29: also /repo/cli; C30: also /repo/pygenex) to LLVM IR and works outside /repo (build/, removed afterwards)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
