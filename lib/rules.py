"""Obligation runner: computes the canonical facts of anchored functions and compares them with the contracts.

A contract is the reviewed set of canonical facts (returned values, final state, effects with guards, order of
conflicting effects) of one anchor, per hard fork.  See DESIGN.md for why equality of these facts is a semantic
comparison, and for the fall-backs that keep behaviour-preserving edits quiet.
"""
import hashlib
import json
import os
import re
import signal
import time

from engine import *
from summary import Summary
import config
from build import TREES
from guard import weaker_abort
from config import SPECS, DEVIRT, INLINE_DEFAULT, modular, ty_of

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(ROOT, "contracts")
NOISE_TRAITS = {"Debug", "Clone", "Hash", "Serialize", "Deserialize", "Visitor", "Display", "PartialEq", "Eq", "PartialOrd", "Ord",
                "Binary", "Octal", "LowerHex", "UpperHex", "Error", "Flags"}


def mod_of(fn):
    return re.sub(r"::\{impl#\d+\}", "", fn["key"]).rsplit("::", 1)[0]


def label(fn):
    """Stable name of a function: module, Self type, trait, name."""
    t = ty_of(fn)
    tr = fn.get("impl_trait", "").split("::")[-1]
    pre = re.match(r"^(&|std::boxed::Box|std::sync::Arc|std::rc::Rc)?", fn.get("impl_tystr", "")).group(0) or ""
    ta = ",".join(strip_generics(x).split("::")[-1] for x in fn.get("impl_trait_args", [])[1:])
    own = f"<{pre if pre == '&' else ''}{t}{' as ' + tr + ('<' + ta + '>' if ta else '') if tr else ''}>::" if t else ""
    return mod_of(fn) + "::" + own + fn["name"]


def sig(fn):
    return [re.sub(r"'\{?\w+\}? ?", "", x) for x in fn["locals"][:fn["argc"] + 1]]


class TooLong(Exception):
    pass


class Limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def fire(*a):
            raise TooLong()
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Ob:
    """One obligation: an anchor function (or opcode handler) and which of its facts the property owns."""

    def __init__(self, name, ty=None, trait=None, mod=None, specs=None, sel=None, drop=None, order=True, opcode=None, targ=None):
        self.name, self.ty, self.trait, self.mod, self.targ = name, ty, trait, mod, targ
        self.specs = SPECS if specs is None else (["-"] if specs == "-" else specs)
        self.sel = [re.compile(x) for x in (sel or [])]
        self.drop = [re.compile(x) for x in (drop or [])]
        self.order = order
        self.opcode = opcode

    @property
    def id(self):
        if self.opcode is not None:
            return f"opcode 0x{self.opcode:02x}"
        r = (f"{self.ty}" if self.ty else "") + (f" as {self.trait}" if self.trait else "") + (f"<{self.targ}>" if self.targ else "")
        return (f"<{r}>::" if r else "") + self.name + (f" in {self.mod}" if self.mod else "")

    def wants(self, key):
        if self.sel and not any(r.search(key) for r in self.sel):
            return False
        return not any(r.search(key) for r in self.drop)


def OP(code, specs=None, sel=None, drop=None, order=True):
    return Ob(None, opcode=code, specs=specs, sel=sel, drop=drop, order=order)


class Ctx:
    def __init__(self, files, baseline=True, tree=""):
        self.tree = tree
        self.F = Facts(files)
        self.F.alias, self.F.renamed = {}, {}
        self.labels = {}
        for f in self.F.fns.values():
            if f.get("name") and f["kind"] in ("Fn", "AssocFn"):
                self.labels.setdefault(label(f), []).append(f)
        self.known = None
        self.inv = None
        self.tables = {}
        self.cache = {}
        self.stats = {"functions": set(), "blocks": 0, "call_sites": 0, "analyses": 0}
        self._base = None
        self.canon = {f["key"]: l for l, fs in self.labels.items() if len(fs) == 1 for f in fs}   # key -> reference label
        if baseline:
            with open(os.path.join(CONTRACTS, f"inventory{tree and '-' + tree}.json")) as fh:
                self.inv = json.load(fh)
            self.match_inventory()
        self.graph = None
        self.deadline = time.time() + 600

    # ---- renamed fields and functions
    def match_inventory(self):
        old = self.inv["adts"]
        oldnames = {f for a in old.values() for v in a for f, _ in v[1]}
        for path, a in self.F.adts.items():
            vs = [[v["n"], [[f[0], f[1]] if isinstance(f, list) else [f, "?"] for f in v.get("fs", v.get("f", []))]] for v in a["variants"]]
            o = old.get(path)
            if not o or len(o) != len(vs):
                continue
            for (on, of), (nn, nf) in zip(o, vs):
                if len(of) != len(nf):
                    continue
                newset, oldset = {f for f, _ in nf}, {f for f, _ in of}
                for (ofn, oft), (nfn, nft) in zip(of, nf):
                    if ofn != nfn and ofn not in newset and nfn not in oldset and nfn not in oldnames:
                        self.F.alias[nfn] = ofn
        known = self.inv["fns"]
        gone = {l: s for l, s in known.items() if l not in self.labels}
        new = {l: fs for l, fs in self.labels.items() if l not in known}
        cand = {}
        for l, s in gone.items():
            for m, fs in new.items():
                if len(fs) == 1 and m.rsplit("::", 1)[0] == l.rsplit("::", 1)[0] and sig(fs[0]) == s["sig"]:
                    cand.setdefault(l, []).append(m)
        used = {}
        for l, ms in cand.items():
            for m in ms:
                used.setdefault(m, []).append(l)
        for l, ms in cand.items():
            if len(ms) == 1 and len(used[ms[0]]) == 1:
                f = self.labels[ms[0]][0]
                self.F.renamed[f["key"]] = l.rsplit("::", 1)[1]
                self.labels[l] = [f]
                self.canon[f["key"]] = l
        # methods moved between modules keep their place by (type, trait, name)
        self.known = {f["key"] for l in known for f in self.labels.get(l, [])}
        for l, fs in new.items():
            for f in fs:
                tail = l[len(mod_of(f)):]
                old = [g for g in gone if g.endswith(tail)]
                if old:
                    self.known.add(f["key"])
                if len(old) == 1 and not self.labels.get(old[0]):
                    self.canon[f["key"]] = old[0]
                    self.labels[old[0]] = [f]

    def boundary(self, fn, inl=frozenset()):
        m = modular(fn)
        rn = self.F.renamed

        def b(g):
            if self.known is not None and g["key"] not in self.known:
                return False
            if inl and (self.canon.get(g["key"]) in inl or g["key"] not in self.canon):
                return False
            if g["key"] in rn:
                g = dict(g, name=rn[g["key"]])
            return m(g)
        return b

    # ---- anchors
    def find(self, ob):
        if ob.opcode is not None:
            return None
        names = [ob.name]
        r = self.F.find(ob.name, ty=ob.ty, trait=ob.trait, mod=ob.mod)
        if ob.targ:
            r = [f for f in r if f"<{ob.targ}>>::" in label(f)]
        if not r:
            ks = [k for k, n in self.F.renamed.items() if n == ob.name]
            r = [self.F.fns[k] for k in ks if self.fits(self.F.fns[k], ob)]
        if len(r) > 1:
            r2 = [f for f in r if not f.get("impl_tystr", "").startswith("&") and f["kind"] in ("Fn", "AssocFn")]
            r = r2 or r
        if len(r) != 1:
            raise MissingAnchor(f"{ob.id}: {len(r)} functions match")
        return r[0]

    def fits(self, f, ob):
        if ob.ty is not None and ty_of(f) != ob.ty:
            return False
        if (f.get("impl_trait", "").split("::")[-1] or None) != ob.trait:
            return False
        return ob.mod is None or ob.mod in f["key"]

    def table(self, spec):
        """The 256 opcode handlers of a spec, recovered from the constructor of the instruction table."""
        if spec not in self.tables:
            fn = self.F.one("new", ty="MegaInstructions")
            A = Analysis(self.F, spec=spec, devirt=DEVIRT)
            A.analyse(fn)
            inner = A.project(A.ret, ("f", "inner"))
            t = None
            if inner.op == "call" and len(inner.a) > 1:
                arr = inner.a[1]
                t = []
                for i in range(256):
                    h = A.project(arr, ("i", INT(i)))
                    if h.op == "agg" and h.a[2] and len(h.a) > 3:
                        h = h.a[3]
                    if h.op == "fn":
                        c = json.loads(h.a[1])
                        k = (c.get("res") or {}).get("key") or c["key"]
                        t.append((k, h.a[0], tuple((c.get("res") or c).get("args", ()))))
                    else:
                        t.append((None, show(h)[:60], ()))
            self.tables[spec] = (t, show(inner)[:60])
        return self.tables[spec]

    def target(self, ob, spec):
        if ob.opcode is None:
            return self.find(ob)
        t, inner = self.table(spec)
        if t is None:
            return inner                      # upstream table
        k, nm, ga = t[ob.opcode]
        return self.F.fns[k] if k in self.F.fns else nm

    def consts_of(self, ob, spec):
        """Const generic arguments the instruction table instantiates a handler with."""
        t, _ = self.table(spec)
        k, nm, ga = t[ob.opcode]
        out = {}
        for g, a in zip(self.F.fns[k].get("generics", []), ga):
            v = const_arg(a)
            if v is not None:
                out[g] = v
        return out

    def summary(self, fn, spec, deep=False, consts=None, inl=frozenset()):
        key = (fn["key"], spec, deep, inl, tuple(sorted((k, v.a[0]) for k, v in (consts or {}).items())))
        if key in self.cache:
            return self.cache[key]
        anyspec = (key[0], "any") + key[2:]                      # analysed before, and the version played no part
        if spec != "-" and anyspec in self.cache:
            return self.cache[anyspec]
        A = Analysis(self.F, spec=None if spec == "-" else spec, devirt=DEVIRT, inline_default=INLINE_DEFAULT,
                     boundary=None if deep else self.boundary(fn, inl), consts=dict(consts or {}))
        A.analyse(fn)
        S = Summary(A, fn)
        facts = S.text()
        order = sorted(S.order)
        self.stats["functions"] |= A.inlined
        self.stats["blocks"] += A.nblocks
        self.stats["call_sites"] += sum(1 for e in A.events if e.kind == "call")
        self.stats["analyses"] += 1
        r = {"facts": facts, "order": order, "spans": dict(S.spans), "span": fn.get("span"),
             "path": fn["path"]}
        self.cache[key] = r
        if spec != "-" and not A.spec_used:
            self.cache[anyspec] = r
        return r

    def select(self, ob, s):
        f = {k: v for k, v in s["facts"].items() if ob.wants(k)}
        if not ob.order:
            o = []
        elif ob.sel or ob.drop:
            keep = {k[5:] for k in f if k.startswith("call ")}
            o = [p for p in s["order"] if p[0] in keep or p[1] in keep]
        else:
            o = s["order"]
        return {"facts": f, "order": [list(p) for p in o]}

    def current(self, ob):
        """{spec: selected facts} of one obligation in the current tree."""
        out = {}
        for sp in ob.specs:
            t = self.target(ob, sp)
            if isinstance(t, str):
                out[sp] = {"facts": {"handler": t}, "order": []}
            else:
                s = self.summary(t, sp, consts=self.consts_of(ob, sp) if ob.opcode is not None else None)
                out[sp] = self.select(ob, s)
        return out

    # ---- comparison with the reference tree under wider inlining, and excuses
    def base_files(self):
        return [os.path.join(CONTRACTS, f"base-{c}.json.xz") for c in TREES[self.tree]]

    def base(self):
        """The reference tree's facts (contracts/base-*.json.xz), analysed by the same engine."""
        if self._base is None:
            self._base = Ctx(self.base_files(), baseline=False, tree=self.tree)
            self._base.deadline = self.deadline
            self._base.changed_labels = self.changed()
        return self._base

    def changed(self):
        """Labels (of the reference tree) of functions whose bodies differ, were removed or are new under that label."""
        if not hasattr(self, "_changed"):
            b = self._base or Ctx(self.base_files(), baseline=False, tree=self.tree)
            hb, hc = body_hashes(b), body_hashes(self)
            self._changed = frozenset(l for l in set(hb) | set(hc) if hb.get(l) != hc.get(l))
        return self._changed

    def reaching(self):
        """The changed functions and every function that can reach one of them, in either tree."""
        if not hasattr(self, "_reach"):
            out = set(self.changed())
            todo = list(out)
            gs = (self.callgraph(), self.base().callgraph())
            while todo:
                l = todo.pop()
                for g in gs:
                    for c in g.get(l, ()):
                        if c not in out:
                            out.add(c)
                            todo.append(c)
            self._reach = frozenset(out)
        return self._reach

    def swapped(self):
        """Functions which some changed function calls in one tree and not in the other (a call replaced by its body, or the reverse)."""
        if not hasattr(self, "_swapped"):
            ch, x, y = self.changed(), self.callgraph(), self.base().callgraph()
            self._swapped = frozenset(l for l in set(x) | set(y) if set(x.get(l, ())) & ch != set(y.get(l, ())) & ch)
        return self._swapped

    def limited(self, fn, spec, limit, **kw):
        left = self.deadline - time.time()
        if left < 5:
            return None
        try:
            with Limit(min(limit, left)):
                return self.summary(fn, spec, **kw)
        except (TooLong, RecursionError, MemoryError):
            return None

    def same(self, lab, specs, ob=None):
        """True when the function called `lab` in the reference behaves the same in both trees, with every changed function inlined
        (or, failing that, with everything inlined)."""
        b = self.base()
        fb, fc = b.labels.get(lab) or [], self.labels.get(lab) or []
        if len(fb) != 1 or len(fc) != 1:
            return False
        for sp in specs:
            k = ("same", lab, sp, ob.id if ob else None)
            if k not in self.cache:
                self.cache[k] = self.same1(b, fb[0], fc[0], sp, ob)
            if not self.cache[k]:
                return False
        return True

    def same1(self, b, fb, fc, sp, ob=None, cb=None, cc=None):
        # An anchor is compared modulo the functions it calls, which answer for themselves; a caller that is to vouch for a changed
        # private function must be compared with everything between the two inlined.
        inl = self.changed() if ob is not None else self.reaching()
        tries = [{"inl": inl or frozenset(["-"])}]
        if self.swapped() - inl:
            tries.append({"inl": inl | self.swapped()})
        for kw in tries + [{"deep": True}]:
            x = b.limited(fb, sp, 60, consts=cb, **kw)
            if x is None:
                continue
            y = self.limited(fc, sp, 90, consts=cc, **kw)
            if y is None:
                continue
            if ob is not None:
                x, y = b.select(ob, x), self.select(ob, y)
            if equal(x, y):
                return True
        return False

    def callgraph(self):
        """label -> labels of its callers (calls, references and closures) in the current tree."""
        if self.graph is None:
            self.graph = callers_of(self.F)
        return self.graph

    def excused(self, lab, depth=3):
        """A private function may change shape when everything that can reach it behaves as before."""
        if self.same(lab, SPECS):
            return True
        if depth == 0 or self.inv is None:
            return False
        info = self.inv["fns"].get(lab)
        if info is None or info["api"]:
            return False
        cs = set(info["callers"])
        for c in self.callgraph().get(lab, ()):
            cs.add(c)
        cs.discard(lab)
        if not cs:
            return False
        return all(self.settled(c, depth - 1) for c in cs)

    def settled(self, c, depth):
        if c not in self.inv["fns"]:
            # a new helper: what matters is who calls it
            cs = self.callgraph().get(c, set()) - {c}
            return bool(cs) and depth > 0 and all(self.settled(x, depth - 1) for x in cs)
        return self.excused(c, depth)


def body_calls(b, out):
    """Keys of every function referenced from a MIR body."""
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "key" in x and isinstance(x["key"], str):
                out.add(x["key"])
            r = x.get("res")
            if isinstance(r, dict) and r.get("key"):
                out.add(r["key"])
            st += list(x.values())
        elif isinstance(x, list):
            st += x
    return out


def callers_of(F):
    lab, g = {}, {}
    for k, f in F.fns.items():
        if f["kind"] in ("Fn", "AssocFn") and f.get("name"):
            lab[k] = label(f)
    for k, f in F.fns.items():
        own = lab.get(k)
        if own is None:
            # closures and consts belong to the function whose key prefixes them
            p = k
            while own is None and "::" in p:
                p = p.rsplit("::", 1)[0]
                own = lab.get(p)
            if own is None:
                continue
        refs = body_calls({"blocks": f["blocks"], "promoted": f.get("promoted")}, set())
        for r in refs:
            if r in lab and lab[r] != own:
                g.setdefault(lab[r], set()).add(own)
    # trait methods reached through devirtualised calls
    for im in F.impls:
        tr = im["trait"]
        if tr in DEVIRT:
            for n, k in im["items"]:
                tk = tr + "::" + n
                for k2, f in F.fns.items():
                    if lab.get(k2) and tk in body_refs(F, k2):
                        if k in lab:
                            g.setdefault(lab[k], set()).add(lab[k2])
    return g


_refs = {}


def body_refs(F, k):
    if k not in _refs:
        f = F.fns[k]
        _refs[k] = body_calls({"blocks": f["blocks"], "promoted": f.get("promoted")}, set())
    return _refs[k]


# ------------------------------------------------------------------ contracts
def group(per_spec):
    """Merge specs with identical facts."""
    out = []
    for sp, v in per_spec.items():
        for g in out:
            if g["facts"] == v["facts"] and g["order"] == v["order"]:
                g["specs"].append(sp)
                break
        else:
            out.append({"specs": [sp], "facts": v["facts"], "order": v["order"]})
    return out


def equal(x, y):
    """The same facts and orders, an abort that became rarer apart."""
    fx, fy = x["facts"], y["facts"]
    if "panic" in fx or "panic" in fy:
        if not weaker_abort(fx.get("panic"), fy.get("panic")):
            return False
        fx, fy = ({k: v for k, v in f.items() if k != "panic"} for f in (fx, fy))
    return fx == fy and {tuple(p) for p in x["order"]} == {tuple(p) for p in y["order"]}


def diff(want, got):
    """[(kind, key, detail)]"""
    out = []
    wf, gf = want["facts"], got["facts"]
    for k in sorted(set(wf) | set(gf)):
        a, b = wf.get(k), gf.get(k)
        if a == b or (k == "panic" and weaker_abort(a, b)):
            continue                                    # no longer aborting is not a regression by itself
        if b is None:
            out.append(("missing", k, f"contract: {short_txt(a)}"))
        elif a is None:
            out.append(("unexpected", k, f"now: {short_txt(b)}"))
        else:
            out.append(("changed", k, f"contract: {short_txt(a)} | now: {short_txt(b)}"))
    wo, go = {tuple(x) for x in want["order"]}, {tuple(x) for x in got["order"]}
    for p in sorted(wo - go):
        out.append(("order", f"{p[0]}  ≺  {p[1]}", "no longer in this order"))
    for p in sorted(go - wo):
        out.append(("order", f"{p[0]}  ≺  {p[1]}", "not in this order in the contract"))
    return out


def short_txt(v, n=400):
    t = v if isinstance(v, str) else "; ".join(f"{a} if {b}" for a, b in v.items())
    return t if len(t) <= n else t[:n] + "…"


def check_obligations(ctx, obs, contract):
    """Compare; returns (violations, number of facts compared)."""
    bad, n = [], 0
    for ob in obs:
        want = {}
        for g in contract.get(ob.id, []):
            for sp in g["specs"]:
                want[sp] = g
        probs = []
        try:
            with Limit(max(30, self_left(ctx))):
                cur = ctx.current(ob)
        except MissingAnchor as e:
            cur = None
            probs.append({"spec": "*", "kind": "missing", "key": "anchor", "detail": str(e), "span": "", "fn": ob.id})
        except (TooLong, RecursionError, MemoryError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
            cur = None                          # not decided: the obligation is not discharged
            probs.append({"spec": "*", "kind": "undecided", "key": "anchor", "detail": f"{type(e).__name__}: {e}", "span": "", "fn": ob.id})
        if cur is not None:
            for sp in ob.specs:
                w = want.get(sp)
                if w is None:
                    raise RuntimeError(f"no contract for {ob.id} {sp}; run check.py --gen")
                n += len(w["facts"]) + len(w["order"])
                ds = diff(w, cur[sp])
                if ds:
                    t = ctx.target(ob, sp)
                    s = ctx.summary(t, sp, consts=ctx.consts_of(ob, sp) if ob.opcode is not None else None) if not isinstance(t, str) else {"spans": {}, "span": "", "path": t}
                    for kind, k, d in ds:
                        probs.append({"spec": sp, "kind": kind, "key": k, "detail": d,
                                      "span": s["spans"].get(k) or s["span"], "fn": s["path"]})
        if probs:
            if excuse(ctx, ob):
                ctx.stats.setdefault("excused", set()).add(ob.id)
            else:
                bad += probs
    return bad, n


def self_left(ctx):
    return min(300, ctx.deadline - time.time())


def excuse(ctx, ob):
    if ob.opcode is not None:
        return all(op_same(ctx, ob, sp) for sp in ob.specs)
    labs = ob_labels(ctx, ob)
    if not labs:
        return False
    return all(ctx.same(l, ob.specs, ob) or ctx.excused(l) for l in labs)


def op_same(ctx, ob, sp):
    b = ctx.base()
    tb, tc = b.target(ob, sp), ctx.target(ob, sp)
    if isinstance(tb, str) or isinstance(tc, str):
        return tb == tc
    return ctx.same1(b, tb, tc, sp, ob, b.consts_of(ob, sp), ctx.consts_of(ob, sp))


def body_hashes(ctx):
    """reference label -> hash of the function's MIR (with its closures), spans and impl numbers removed."""
    own = {}
    for k, f in ctx.F.fns.items():
        p = k
        while p not in ctx.canon and "::" in p:
            p = p.rsplit("::", 1)[0]
        l = ctx.canon.get(p) or re.sub(r"\{impl#\d+\}", "{impl}", k)
        own.setdefault(l, []).append(f)
    out = {}
    for l, fs in own.items():
        h = []
        for f in fs:
            t = json.dumps([f["blocks"], f.get("promoted"), f["locals"]], default=sorted)
            t = re.sub(r'"(sp|span)": "[^"]*"', "", t)
            t = re.sub(r"\{(closure|async|coroutine)@[^}]*\}", "{closure}", t)
            h.append(re.sub(r"\{impl#\d+\}", "{impl}", t))
        out[l] = hashlib.sha256("\n".join(sorted(h)).encode()).hexdigest()[:16]
    return out


def ob_labels(ctx, ob):
    """Inventory label(s) of an anchor, also when it no longer exists."""
    out = []
    for l, info in ctx.inv["fns"].items():
        if info["name"] == ob.name and info["ty"] == (ob.ty or info["ty"]) and info["trait"] == (ob.trait or ""):
            if ob.ty is None and info["ty"]:
                continue
            if (ob.mod is None or ob.mod in info["key"]) and (ob.targ is None or f"<{ob.targ}>>::" in l):
                out.append(l)
    return out


def thorough_deep(ctx, obs):
    """Compare every anchor with the reference in fully inlined form too (reaches changes below the anchor's own component)."""
    b = ctx.base()
    bad, n = [], 0
    for ob in obs:
        if ob.opcode is not None or ob.specs == ["-"]:
            continue
        for l in ob_labels(ctx, ob):
            fb, fc = b.labels.get(l) or [], ctx.labels.get(l) or []
            if len(fb) != 1 or len(fc) != 1:
                continue
            for sp in ob.specs:
                x = b.limited(fb[0], sp, 20, deep=True)
                y = ctx.limited(fc[0], sp, 30, deep=True) if x is not None else None
                if y is None:
                    continue
                n += 1
                if x["facts"] != y["facts"] or x["order"] != y["order"]:
                    d = diff(x, y)
                    bad.append({"spec": sp, "kind": "deep " + d[0][0], "key": d[0][1], "detail": d[0][2],
                                "span": fc[0].get("span", ""), "fn": fc[0]["path"]})
    return bad, n
