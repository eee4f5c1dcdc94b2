#!/usr/bin/env python3
"""verify.py <property id>... [--tier quick|thorough]: decides properties on /repo's current source."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)
import base, build


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l[9:].split(" :: ")[0].split(" | "))
                f["text"] = l.split(" :: ", 1)[1] if " :: " in l else ""
                out.append(f)
    return out


def run(pid, tier):
    t0 = time.time()
    ctx = base.Ctx(pid, tier)
    f = base.CHECKS[pid]
    f(ctx)
    kf = [k for k in known() if k["property"] == pid]
    fresh, old = [], []
    for (rule, key), v in ctx.viol.items():
        hit = next((k for k in kf if k["rule"] == rule and k["key"] == str(key)), None)
        (old if hit else fresh).append((v, hit))
    obligations = sum(n for c, n in ctx.counts.items() if c not in ("abstract states", "events"))
    props = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        if l.strip():
            d = json.loads(l)
            props[d["id"]] = d
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="other",
              coverage=dict(explanation="; ".join(ctx.rules), counts=ctx.counts, roots=ctx.roots,
                            functions=sorted(getattr(ctx, "_fns", ())), samples=ctx.samples,
                            violations=[v for v, _ in fresh], known_findings=[v for v, _ in old]),
              wall_s=round(time.time() - t0, 2))
    evd = os.path.join(os.environ.get("VERIF_FACTS") or HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1, default=str)
    for v, hit in old:
        print(f"KNOWN-FINDING: property={pid} {v['rule']}: {v['msg']} [{hit['text']}]")
    if fresh:
        rep = os.path.join(os.environ.get("VERIF_FACTS") or os.path.join(HERE, ".build"), "replay")
        os.makedirs(rep, exist_ok=True)
        rep = os.path.join(rep, pid + ".json")
        with open(rep, "w") as o:
            json.dump([v for v, _ in fresh], o, indent=1, default=str)
        for v, _ in fresh:
            print(f"  [{v['rule']}] {v['where']}: {v['msg']}")
            for s in v["stack"][1:6]:
                print(f"      called from {s}")
            if v["path"]:
                print("      path: " + " -> ".join(v["path"][-14:]))
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    print(f"OK {pid}: {obligations} obligations, {ctx.counts.get('abstract states', 0)} abstract states, {time.time() - t0:.1f}s")
    return 0


def main():
    tier = "quick"
    ids = []
    it = iter(sys.argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        else:
            ids.append(a)
    for m in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if m.endswith(".py") and m != "base.py":
            importlib.import_module(m[:-3])
    if ids == ["all"]:
        ids = sorted(base.CHECKS)
    rc = 0
    for i in ids:
        try:
            rc |= run(i, tier)
        except (build.BuildError, KeyboardInterrupt):
            raise
        except Exception:       # code of a shape that the analysis cannot follow: the property is not established
            traceback.print_exc()
            print(f"VIOLATION property={i} replay={os.path.abspath(__file__)}")
            rc = 1
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print(e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
