#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of properties and checks) from one place."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification: contracts on the Go source, VCs generated from go/ssa by govc, discharged by z3/cvc5"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note="", claim=True, reason="", level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, claim=claim, reason=reason, level=level))


prop("C01", "Work lists hand back every element exactly once and in their order",
     "A queue returns elements first-in first-out, a stack last-in first-out, and a random queue returns some element still in it; no element is ever lost, duplicated or invented, whatever the interleaving of additions and removals. "
     "The reported length and emptiness always equal the number of elements added and not yet removed, looking at the top or bottom of a stack shows exactly that element, and removal from an empty list reports that there is none.",
     ["histories", "inputs"], "every finite sequence of operations on each container, of any length, and every element type and value",
     "The containers have no tests of their own; the model checker tests only push a handful of nodes, never cross an internal batch boundary and never reuse an emptied container.",
     ["lib/queue.go", "lib/stack.go", "lib/randomqueue.go", "lib/linear_collection.go"],
     [("batched linked list of the queue", "lib/queue.go Enqueue/Dequeue"), ("cached top and bottom pointers of the stack", "lib/stack.go Push/Pop/Peek/Head"), ("removal at a random index", "lib/randomqueue.go Remove")],
     [("count", "elements in the queue", "lib/queue.go"), ("peak, head", "pointers to top and bottom", "lib/stack.go")],
     ["return values of Add/Remove/Len/Empty/Peek/Head/RawArray"],
     note="Every public operation of the three containers is proved for all element types and sizes; container/list, sync.Mutex and rand.Intn are assumed by contract; goroutines are not modelled.")

exec(open(os.path.join(D, "meta_more.py")).read()) if os.path.exists(os.path.join(D, "meta_more.py")) else None

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: harnesses enter through go test -overlay", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": TECH, "level": p["level"], "level_note": p["note"]} for p in P if p["claim"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]],
     "notes": "Known findings and repaired defects: known_findings.json. Executable contracts (harness/) are bounded stand-ins and replays, never counted as proved."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
