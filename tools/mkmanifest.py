#!/usr/bin/env python3
import json
T={
"C01":("request fidelity: every handler invocation is compared with the request value the client passed","seeded simulation of clients and servers over a simulated network; handler arguments compared with the call's value"),
"C02":"returned responses compared with the values handlers gave, statuses and headers included",
"C03":"history check: handler invocations per call (at most once), results against handler history",
"C04":"streams cut at every kind of point by end of stream, reset or silence; truncated messages must never be delivered as whole",
"C05":"wire-level check of order, number and framing of responses per connection",
"C06":"reference matcher over generated route tables, every dispatched request compared with it",
"C07":"rejected requests (unroutable, malformed) get the prescribed 4xx and no handler runs",
"C08":"misbehaving clients, accept errors, slow handlers; well-behaved clients must still be served",
"C09":"each pooled connection carries at most one exchange at a time, responses attributed to their calls",
"C10":"reference model of the pool: limits and reuse over the recorded connection history",
"C11":"broken connections are never reused; calls after the fault succeed",
"C12":"reference model of address suspension, compared with the connection attempts seen by the simulated kernel; wall-clock jumps injected",
"C13":"unreachable, refusing, slow and black-holed addresses on a simulated clock; the moments at which calls give up compared with the configured timeout",
"C14":"liveness: bounded steps and simulated time to the result of every call once faults stop",
"C15":"scripted servers sending arbitrary responses: results match a reference reading, nothing panics or hangs",
"C16":"real server threads under a seeded scheduler that preempts them inside the cloning of handlers; overlapping clones of one handler value are violations",
"C17":"sockets held by every simulated process at quiescence compared with what calls, pools and clients account for, after cuts, resets, cancellations and hostile clients",
"C18":"servers started, refused (address in use, bind errors) and dropped at seeded moments of the traffic; listening sockets and answers compared with a small model",
"C19":"every message on the simulated wire read by an independent HTTP reader and compared with an independent flattening of the value given",
"C20":"watched handler futures: each one started must end in time, whatever clients, connections and the server's future do",
"C21":"bystander calls to responsive peers must finish in bounded simulated time while other calls of the same client, pool or server are stuck",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    i=p["id"]
    t=T[i]; t=t[0] if isinstance(t,tuple) else t
    checks.append({
     "property":i,
     "quick_cmd":f"bash check.sh {i}",
     "thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}",
     "technique":"deterministic simulation with fault injection (seeded schedules and faults): "+t,
     "level":"exploration",
     "level_note":"The real htrpc, miasht, handy_async and fibers code runs on a simulated kernel, network and clock; seeds decide workload, schedule and faults. Held means: held on every run explored (counts in the evidence file), not for all executions. Assumptions are listed in DESIGN.md.",
    })
m={"version":1,"setup_cmd":"bash check.sh --build","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the simulator replaces the crates mio and (partly) fibers below htrpc through cargo's [patch]. All commits in /repo are fixes of genuine defects, listed in known-findings.txt. Replay a violation with: bash check.sh --replay FILE"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
