#!/usr/bin/env python3
"""Decides one property (or several) of /repo's current tree: run.py [--thorough] P01 [P02 ...]"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import build  # noqa: E402
from sa.load import Prog  # noqa: E402

TRUSTED = ["rustc nightly (parsing, type checking, MIR construction)",
           "driver/src/main.rs (serialises the MIR the compiler built)",
           "sa/engine.py (abstract interpreter), sa/prover.py (linear arithmetic)",
           "sa/models.py (models of std, tokio, tokio-util, parking_lot, rangemap, bytes, futures and the user's trait implementations)"]


def known():
    """property -> {key: description} of the recorded, unrepaired findings"""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("finding: "):
                head, _, desc = l[len("finding: "):].partition(" :: ")
                prop, key = head.split(" ", 1)
                out.setdefault(prop.split("=")[1], {})[key.split("=", 1)[1]] = desc
    return out


def load(config, progs):
    """the program(s) of a configuration"""
    if config is None:
        return None
    if isinstance(config, tuple):
        return [load(c, progs) for c in config]
    if config not in progs:
        f = build.dump(config)
        try:
            progs[config] = Prog(f)
        finally:
            build.cleanup(f)
    return progs[config]


def one(prop, tier, progs):
    from sa.checks import CHECKS
    t0 = time.time()
    c = CHECKS[prop]
    viol, errors, r = [], [], None
    try:
        r, errors = c.run(load(c.config, progs), tier)
    except build.BuildError as e:
        errors = [str(e)]
    except Exception:
        errors = [traceback.format_exc()[-2500:]]
    kf = known().get(prop, {})
    seen = set()
    if r is not None:
        for (p, key), v in sorted(r.violations.items()):
            if p != prop:
                continue
            if key in kf:
                seen.add(key)
            else:
                viol.append(dict(key=key, message=v["message"], at=v["at"], path=v["path"]))
        keys = {k for p, k in r.obl if p == prop}
        for fl in c.floors:
            if not any(k == fl or k.startswith(fl + ":") for k in keys):
                viol.append(dict(key="anchor:" + fl, message=f"the analysis met no obligation '{fl}': the construct it is about was not found", at="-", path=[]))
    for e in errors:
        viol.append(dict(key="analysis", message="the property cannot be established for the current source: " + e, at="-", path=[]))
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    obl = {k: n for (p, k), n in (r.obl if r else {}).items() if p == prop}
    bad = {v["key"] for v in viol} | seen
    total = sum(obl.values()) or 0
    cov = {"obligations": len(obl), "discharged": len([k for k in obl if k not in bad]),
           "checker_cmd": f"python3 run.py {prop}", "trusted_base": TRUSTED, "rule": c.rule,
           "obligation_instances": total, "obligation_keys": sorted(obl),
           "explanation": "each obligation is a rule instance at a construct of the source; an instance count is the number of abstract states in which it was decided"}
    if r is not None:
        cov.update(functions_analysed=len(r.functions), functions=sorted(r.functions)[:200], roots=r.stats["roots"],
                   abstract_blocks=r.stats["blocks"], abstract_states=r.stats["partitions"], joins=r.stats["joins"],
                   call_sites=len(r.sites), unmodelled_calls=sorted(r.unknown)[:50])
        if getattr(r, "extra", None):
            cov.update(r.extra)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof", "coverage": cov,
          "wall_s": round(wall, 2), "violations": len(viol),
          "known_findings": sorted(seen)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {k}: {kf[k]}")
    if viol:
        rp = os.path.join(HERE, "evidence", f"{prop}.violations.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write(f"{v['key']}\n  {v['message']}\n  at {v['at']}\n")
                for x in v["path"][-60:]:
                    f.write(f"    {x}\n")
        for v in viol[:12]:
            print(f"{prop}: {v['message']} [{v['key']}] at {v['at']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: holds; {len(obl)} obligations, {total} instances, {wall:.1f} s")
    return 0


def main():
    args = sys.argv[1:]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    props = [a for a in args if not a.startswith("-")]
    rc, progs = 0, {}
    for p in props:
        rc |= one(p, tier, progs)
    sys.exit(rc)


if __name__ == "__main__":
    main()
