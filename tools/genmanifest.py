# Writes /verif/MANIFEST.json from the properties and the list of those claimed.
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed=open(os.path.join(root,"tools/claimed.txt")).read().split()
na={
 "C26":"A pure function of its argument: no schedule, clock, I/O, fault or second party takes part, so a simulator has nothing to decide; its observable consequences inside the components are covered by C06, C08 and C12.",
 "C27":"A statement about real hardware speed; simulated time says nothing about it.",
}
note={}
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=[];nas=[]
for p in props:
    i=p["id"]
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"env VERIF_TIER=thorough ./check {i}","evidence_file":f"evidence/{i}.json",
          "technique":"deterministic simulation with fault injection (seeded search over schedules and faults)",
          "level":"exploration",
          "level_note":"The real component code runs in one process under a seeded scheduler, virtual clock and simulated network, bus, database and files; an independent reference model judges every run. Sampling: nothing is proved beyond the runs made. Trusts the stubs (bus and database protocol servers, kernel sockets) and the Go toolchain; see DESIGN.md."})
    else:
        nas.append({"property":i,"reason":na.get(i,"No check has been built for it yet.")})
m={"version":1,"setup_cmd":"./tools/simctl.sh warm","checks":checks,"not_applicable":nas,
 "notes":"No hooks in /repo: the seams are inserted at build time with go build -overlay (instrumented copies of the sources, patched runtime/net/os packages). known_findings.json lists findings and repairs. ./replay FILE replays a violation."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
