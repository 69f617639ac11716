#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   Decide one property on /repo's current tree by static analysis.

quick     the property's obligations (canonical facts of every anchor against the reviewed contract) and relational rules
thorough  the same, and every anchor is also compared in fully inlined form with the reference tree (contracts/base-*.json.xz)
"""
import json
import os
import resource
import sys
import time
import traceback

sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import build
    from rules import Ctx, check_obligations, CONTRACTS, thorough_deep
    from props import PROPS
    p = PROPS[pid]
    try:
        files, key = build.facts()
    except build.BuildError as e:
        print(f"{pid}: /repo does not build under the analysis toolchain; nothing can be decided\n{str(e)[-3000:]}", file=sys.stderr)
        return 2
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))         # a comparison that needs more counts as undecided
    ctx = Ctx(build.tree(files, p.tree), tree=p.tree)
    contract = {}
    if p.obs:
        with open(os.path.join(CONTRACTS, pid + ".json")) as fh:
            contract = json.load(fh)
    bad, facts = check_obligations(ctx, p.obs, contract)
    rules = {}
    for r in p.rules:
        try:
            b, n = r(ctx)
        except Exception:                                         # left to the contract comparison, and visible in the evidence
            b, n = [], "not evaluable"
            traceback.print_exc()
        rules[r.__name__] = n
        bad += b
    deep = 0
    if tier == "thorough":
        b, deep = thorough_deep(ctx, p.obs)
        bad += b
    known = load_known(pid)
    seen, new = set(), []
    for v in bad:
        k = f"{v['fn']} | {v['kind']} | {v['key']}"
        if k in known:
            seen.add(k)
        else:
            new.append(v)
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    nob = sum(len(o.specs) for o in p.obs)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Path-sensitive abstract interpretation of the type-checked MIR of /repo (all feasible paths of each anchor, "
                           "specialised per protocol version); the canonical facts (returned values, final state, effects with their exact "
                           "path conditions, order of conflicting effects) are compared with the reviewed contract of the property, "
                           "and the relational rules are evaluated on the same facts.",
            "anchors": len(p.obs), "anchor_version_pairs": nob, "facts_compared": facts,
            "functions_analysed": len(ctx.stats["functions"]), "mir_blocks_interpreted": ctx.stats["blocks"],
            "effect_sites": ctx.stats["call_sites"], "analyses": ctx.stats["analyses"],
            "relational_rules": rules, "deep_comparisons": deep,
            "excused_anchors": sorted(ctx.stats.get("excused", [])),
            "rule": "no fact of an anchor may differ from the contract unless the anchor's (or, for private functions, every caller's) "
                    "fully inlined behaviour is unchanged",
            "source_hash": key,
            "samples": [f"{o.id} @ {','.join(o.specs)}" for o in p.obs[:5]],
        },
        "assumptions": ["upstream crates (revm, op-revm, alloy-evm) behave as pinned in Cargo.lock",
                        "integer arithmetic is treated as mathematical except where the code uses checked/saturating/wrapping operations",
                        "the contract was reviewed against the documentation"] + p.assume,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if facts == 0 and not any(isinstance(n, int) and n for n in rules.values()):
        print(f"VIOLATION property={pid} replay=none (no obligations evaluated)")
        return 1
    if not new:
        print(f"{pid} held: {len(p.obs)} anchors, {nob} anchor/version pairs, {facts} facts, rules {rules}, {ev['wall_s']} s")
        return 0
    rp = os.path.join(ROOT, "evidence", pid + ".violations.json")
    with open(rp, "w") as fh:
        json.dump(new, fh, indent=1, ensure_ascii=False)
    shown = {}
    for v in new:
        shown.setdefault((v["fn"], v["kind"], v["key"], v["detail"]), []).append((v["spec"], v["span"]))
    for (fn, kind, k, d), ss in list(shown.items())[:12]:
        print(f"{ss[0][1]}: in {fn} [{', '.join(s for s, _ in ss)}]: {kind} {k[:300]}\n    {d[:700]}")
    if len(shown) > 12:
        print(f"... {len(shown) - 12} more in {rp}")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


def load_known(pid):
    out = {}
    fn = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(fn):
        with open(fn) as fh:
            for e in json.load(fh)["findings"]:
                if e["property"] == pid and e.get("status") != "fixed":
                    out[e["key"]] = e["what"]
    return out


if __name__ == "__main__":
    sys.exit(main())
