#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below (one entry per property)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE

TRUST = (" Trusts rustc's MIR (drop-elaborated, nightly) as a faithful rendering of the source, the engine in lib/absint.py, and the documented behaviour of std and of "
         "the external crates, whose calls are opaque events. A finding names the function, the call site and the path.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            if len(p["title"]) > 80:
                raise SystemExit("title too long: " + p["id"])
            if p["statement"].count(". ") > 2:
                raise SystemExit("statement too long: " + p["id"])
            o.write(json.dumps(d) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    m = dict(version=1, setup_cmd="python3 lib/build.py",
             checks=[dict(property=p["id"], quick_cmd=f"python3 verify.py {p['id']}", thorough_cmd=f"python3 verify.py {p['id']} --tier thorough",
                          technique=p["technique"], level="other", level_note=p["note"] + TRUST)
                     for p in PROPS if p["id"] not in na],
             not_applicable=NOT_APPLICABLE)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as o:
        json.dump(m, o, indent=1)
        o.write("\n")
    print(len(m["checks"]), "claimed,", len(na), "not applicable")


main()
