#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os,sys
sys.path.insert(0,os.path.dirname(__file__))
import mkprops
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE={
"C01":"Oracle independent of the model: an executable external gateway decodes and executes every completed proof; what it approves is compared with the ground truth of emitted events. Dishonest workers vote and sign arbitrarily; messages of polls in which they hold a deciding weight are excused.",
"C15":"Oracle independent of the contracts' encoders: own ABI and BCS decoders, own signature recovery, executable external gateway with operator epochs.",
"C17":"Compared with the model and, independently, with the operator epochs of the executable external gateway. Known finding: earlier set handed over again.",
"C20":"Bank balances are compared with a reference ledger after every transaction; every run ends by unbonding and claiming everything.",
"C26":"Every batch is also executed as single transactions in a fork and the complete state compared.",
"C27":"For chosen transactions every contract-call, reply, query, bank and nexus seam is failed in turn, before and after its effect, each in a fork of the state; the complete storage is compared. Complete over the seams of those transactions, sampled over transactions.",
"C28":"Liveness as progress in a fixed budget of honest steps after faults stop, from the end state of every run. Known findings: hash concatenation, earlier set again, shared public key.",
"C29":"Identifiers are generated in many notations; the executable gateway and the events it executed are the oracle. Known finding: notation of the transaction id.",
}
DEF="Every transaction's outcome, emitted calls, events, and all queries are compared with a reference model written from the property, over seeded histories of a full multi-chain deployment with faults, restarts and dishonest workers. "
TAIL=" Sampling, not exhaustive. Trusts the model and external-gateway reference in /verif/sim, cw-multi-test as chain engine, and that contracts run natively instead of in wasm."
ANOTE={
"C31":"Oracle: the simulated source chains know what was emitted, where and when it became final. Known finding: a failed receipt query counts as not found.",
"C32":"Every message is judged when it is estimated and when it is broadcast, and every request to the signing service.",
"C33":"Oracle over the recorded history of all processes of a worker. Known finding: answers lost with a failed transaction.",
"C34":"The simulated chain decodes every transaction and compares it with what the process was told.",
"C35":"File operations of the daemon are intercepted at libc level; the state found after a kill is what was made durable.",
"C36":"A fault-free period with new questions follows every run. Known finding: repeated answers stop it again and again.",
"C37":"Compared with the configuration and the signing service's keys.",
}
ATAIL=["The real daemon (ampd, unmodified) runs as simulated processes on a deterministic runtime, with simulated nodes, signing service, disk and clock; stops, kills, outages, delays, lost and failing calls are injected. {}",
 " Sampling, not exhaustive. Trusts the stand-ins for tokio, tonic, ethers, cosmrs and the other libraries that are not available here (ampdsim/stubs) and the simulated chains."]
m={"version":1,"setup_cmd":"./run.sh build","checks":[],"not_applicable":[],
 "notes":"Simulators in /verif/sim (contracts) and /verif/ampdsim (worker daemon); replay a reported violation with: ./run.sh replay FILE. No hooks in /repo: contract entry points are the seams."}
for x in mkprops.P:
    p=x["id"]
    ampd=p>="C31"
    m["checks"].append({"property":p,"quick_cmd":f"./run.sh check {p}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh check {p}",
      "evidence_file":f"evidence/{p}.json","technique":"deterministic simulation with fault injection: seeded schedules against a reference model",
      "level":"fault_enumeration" if p=="C27" else "exploration","level_note":ATAIL[0].format(ANOTE[p])+ATAIL[1] if ampd else (NOTE.get(p) or DEF.strip())+TAIL})
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
