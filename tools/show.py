import json,sys
r=json.load(open(sys.argv[1])); print(r["verdict"],r["message"]); print(r["cfg"]); print(json.dumps(r["workload"])); print(len(r["schedule"] or []),"schedule",len(r["faults"] or []),"faults", (r["schedule"] or [])[:20], (r["faults"] or [])[:20])
