#!/usr/bin/env python3
"""Regenerate the committed contracts from /repo's current tree.  Never called by a check: the output is reviewed and committed.

    gen.py            inventory, reference facts (base-*.json.xz) and every property's contract
    gen.py C05 ...    only the contracts of these properties
"""
import json
import lzma
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build
from rules import *

def dump(name, d):
    with open(os.path.join(CONTRACTS, name), "w") as fh:
        json.dump(d, fh, indent=1, sort_keys=True, ensure_ascii=False)
        fh.write("\n")


def main():
    files, key = build.facts()
    only = sys.argv[1:]
    os.makedirs(CONTRACTS, exist_ok=True)
    if not only or "inventory" in only:
        for tree in build.TREES:
            ctx = Ctx(build.tree(files, tree), baseline=False, tree=tree)
            cg = callers_of(ctx.F)
            fns = {}
            for l, fs in ctx.labels.items():
                if len(fs) != 1:
                    continue
                f = fs[0]
                tr = f.get("impl_trait", "").split("::")[-1]
                if tr in NOISE_TRAITS or "mega-evm/src" not in f["span"] and "state-test/src" not in f["span"]:
                    continue
                fns[l] = {"name": f["name"], "ty": ty_of(f), "trait": tr, "key": f["key"], "sig": sig(f), "api": bool(f.get("pub")),
                          "callers": sorted(cg.get(l, ()))}
            adts = {p: [[v["n"], [[f[0], f[1]] if isinstance(f, list) else [f, "?"] for f in v.get("fs", v.get("f", []))]] for v in a["variants"]] for p, a in ctx.F.adts.items()}
            dump(f"inventory{tree and '-' + tree}.json", {"fns": fns, "adts": adts})
    if not only or "base" in only:
        for f in files:
            with open(f, "rb") as fh, lzma.open(os.path.join(CONTRACTS, "base-" + os.path.basename(f) + ".xz"), "wb", preset=9) as o:
                o.write(fh.read())
    only = [x for x in only if x not in ("inventory", "base")]
    if sys.argv[1:] and not only:
        return
    from props import PROPS
    ctxs = {t: Ctx(build.tree(files, t), tree=t) for t in build.TREES}
    ctx = ctxs[""]
    if not only or "E01" in only:
        import relations
        dump("aborts.json", {l: a for l, (a, _) in relations.aborts(ctx)[0].items()})
        dump("swallow.json", {l: [x.rsplit(":", 1)[0] for x in v] for l, v in relations.swallowed(ctx).items()})
    for pid, p in PROPS.items():
        if only and pid not in only or not p.obs:
            continue
        c = {}
        for ob in p.obs:
            c[ob.id] = group(ctxs[p.tree].current(ob))
        dump(pid + ".json", c)
        print(pid, len(p.obs), sum(len(g["facts"]) for v in c.values() for g in v))


if __name__ == "__main__":
    main()
