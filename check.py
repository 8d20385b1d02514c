#!/usr/bin/env python3
"""check.py <property id> [--facts-only]: decide one property from /repo's current source."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
os.environ.setdefault("PYTHONHASHSEED", "0")


def registry():
    reg = {}
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.startswith("c_") and f.endswith(".py"):
            m = f[:-3]
            with open(os.path.join(HERE, "checks", f)) as fh:
                for line in fh:
                    if line.startswith("IDS = "):
                        for i in eval(line[6:]):
                            reg[i] = m
                        break
    return reg


def load_known(pid):
    """committed known findings: key -> text; only entries with a key suppress"""
    out = {}
    with open(os.path.join(HERE, "known_findings.json")) as f:
        for e in json.load(f)["findings"]:
            if e["property"] == pid:
                out[e["key"]] = e["what"]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    import ctx as C
    import facts
    try:
        reg = registry()
        if pid not in reg:
            print("unknown property", pid)
            return 2
        c = C.Ctx(pid, tier)
        importlib.import_module(reg[pid]).run(c)
    except facts.FactsError as e:
        print("ERROR: cannot analyse the tree: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = load_known(pid)
    new, old = [], []
    for k, v in sorted(c.violations.items()):
        (old if k in known else new).append(v)
    cov = dict(c.coverage)
    cov.setdefault("explanation", c.explanation if hasattr(c, "explanation") else "")
    if c.undecided:
        cov["undecided"] = sorted(set(c.undecided))[:80]
        cov["undecided_count"] = len(set(c.undecided))
    cov["functions_in_program"] = len(c.P.bodies)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": c.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          }
    cov["known_findings_seen"] = [v["key"] for v in old]
    if new:
        cov["violations_reported"] = new[:50]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", pid + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[v["key"]], v["key"]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:40]:
            print("  %s: %s (%s)" % (v["key"], v["what"], v["where"]))
            for p in v["path"][-6:]:
                print("      via %s" % p)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if c.floor_errors:
        for e in c.floor_errors:
            print("ERROR: %s" % e)
        return 2
    print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in c.coverage.items() if isinstance(v, int)})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
