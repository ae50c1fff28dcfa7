#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": "TLC trace validation against the Cover machine (coverage of a walk)",
 "C02": "TLC trace validation against the Order machine (pre-order and sort options)",
 "C03": "TLC trace validation against the Cover machine with depth limits",
 "C04": "TLC trace validation against the Meta machine (node attributes)",
 "C05": "TLC trace validation against the Bracket machine (nesting of notifications)",
 "C06": "TLC trace validation against the metrics accounting machine",
 "C07": "TLC trace validation against the Cover machine with errors and skips",
 "C08": "TLC trace validation against the Cover machine with the filter rules of Scn/Text",
 "C09": "TLC trace validation against the Cover machine with children",
 "C10": "TLC trace validation against the Window machine (hibernation)",
 "C11": "TLC trace validation against the Cover machine with sampling",
 "C12": "TLC trace validation against the Cover machine with injected faults",
 "C13": "TLC trace validation against the Save machine (state saved on a panic)",
 "C14": "TLC trace validation of interrupted and resumed runs against the resume machine",
 "C16": "TLC model checking of the concurrent algorithm (MCPool: Pool implies PoolRun) and TLC trace validation of concurrent runs against PoolRun",
 "C17": "TLC trace validation of requests against the Setup machine, and TLC model checking of it (MCSetup)",
 "C15": "TLC trace validation of saves, faults and loads against the Persist machine; every short history enumerated from MCPersist is replayed",
 "C18": "TLC trace validation against the Hooks machine; every short history enumerated from MCHooks is replayed",
 "C19": "TLC trace validation against the Notify machine; every short history enumerated from MCNotify is replayed",
 "C20": "TLC trace validation against the Coll and Chain machines; every short history enumerated from MCColl/MCChain is replayed",
 "C21": "TLC trace validation against the Bus machine; every short history enumerated from MCBus is replayed",
 "C22": "TLC trace validation of groups of runs against the Same machine",
 "C24": "TLC model checking of the navigation algorithm (MCWalk) and TLC trace validation of whole event sequences against it (Walk)",
 "C23": "TLC trace validation of simultaneous and nested navigations, each against the machines of the other properties",
}
NOTE = ("Seeded scenarios are run against the code built from /repo and every recorded event is checked by TLC against the TLA+ "
        "specification; bounded to the generated trees and options. Trusts TLC, the recorder (harness/*.go) and the renaming in tools/norm.py.")
checks = [{"property": p, "quick_cmd": "python3 tools/check.py %s" % p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
           "technique": t, "level": "model_checking", "level_note": NOTE} for p, t in sorted(CLAIMED.items())]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": "machinery not built yet"} for p in props if p not in CLAIMED]
doc = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "none", "enable": "no hooks are needed: the harness is compiled into the module through a build overlay", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "TLA+ with TLC. See DESIGN.md."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
