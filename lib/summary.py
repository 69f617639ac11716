"""Canonical, refactoring-insensitive summaries of analysed functions.

summary(A) turns the raw result of one Analysis into a set of facts
    key  ->  { canonical value : canonical guard }
with keys  ret..., state <path>, call <effect>, and an `order` relation.  Values are phi-free strings over
the function's inputs; guards are BDDs re-ordered by atom text and serialised, so two guards are equal as
strings exactly when they are the same boolean function of the same atoms.
"""
import hashlib
import re
from engine import *
from bdd import BDD

SKIP_CALLS = {"Iterator::next", "fmt::format", "Arguments::new", "Arguments::from_str", "Formatter::write_fmt", "drop_in_place",
              "Argument::new_display", "Argument::new_debug", "callsite::register", "Event::dispatch", "Once::call_once"}
MAXLEAF = 48
EFFECT = re.compile(r"^(Atomic::(fetch_\w+|store|swap|compare_exchange\w*)|process::exit|Builder::spawn|thread::spawn|execute_single_test|execute_test_suite)$")
ETA = {"Some": OPT, "None": OPT, "Ok": RES, "Err": RES}


def clip(t, n=240):
    return t[:n] + "…#" + hashlib.sha256(t.encode()).hexdigest()[:16]


class Canon:
    def __init__(self, A):
        self.A = A
        self.memo = {}
        self.atomname = {}
        self.used = {}
        self.gmemo = {}
        self.paymemo = {}
        self.msmemo = {}
        self.mutators = {e.name for e in A.events if e.kind == "call" and e.muts}

    # ---- values (phi printed inline only when it could not be distributed)
    def cs(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self._cs(v)
            if len(r) > 900:
                r = clip(r)
            self.memo[v] = r
        return r

    def _cs(self, v):
        if not isinstance(v, N):
            return str(v)
        s = self.cs
        o, a = v.op, v.a
        if o == "int":
            return str(a[0])
        if o == "hex":
            return "0x" + str(a[0])
        if o == "str":
            return repr(a[0])
        if o == "cname":
            return "::".join(str(a[0]).split("::")[-2:])
        if o == "arg":
            return str(a[0])
        if o == "deref":
            return s(a[0])
        if o == "cref":
            return s(a[0])
        if o == "field":
            return f"{s(a[0])}.{self.fname(a[1])}"
        if o == "as":
            return f"{s(a[0])}!{a[1]}"
        if o == "index":
            return f"{s(a[0])}[{s(a[1])}]"
        if o == "agg":
            n = a[0].split("::")[-1]
            self.A.spec_used |= n == "MegaSpecId"
            if n == "MegaSpecId" and a[1] == self.A.spec:
                return "MegaSpecId::$SPEC"
            t = n if a[1] == n else f"{n}::{a[1]}"
            return t + ("{" + ", ".join(f"{self.fname(k)}:{s(x)}" for k, x in sorted(zip(a[2], a[3:]), key=lambda z: z[0])) + "}" if a[3:] else "")
        if o == "tuple":
            return "(" + ", ".join(map(s, a)) + ")"
        if o == "array":
            return "[" + ", ".join(map(s, a)) + "]"
        if o == "lin":
            t = sorted(((s(x), c) for x, c in a[1]))
            out = [("+" if c > 0 else "-") + ("" if abs(c) == 1 else f"{abs(c)}*") + x for x, c in t]
            if a[0]:
                out.append(f"{a[0]:+d}")
            return "(" + " ".join(out) + ")"
        if o == "bdd":
            return "{" + self.gs(a[0]) + "}"
        if o == "phi" and self.A.root(v) is not None:
            b = s(self.A.root(v))
            return b if b.endswith("′") else b + "′"
        if o in ("phi", "sum"):
            m = {}
            for g, x in a[0]:
                m[s(x)] = self.A.b.or_(m.get(s(x), 0), g)
            if len(m) == 1 and o == "phi":
                return next(iter(m))
            it = sorted((x, self.gs(g)) for x, g in m.items())
            return ("φ(" if o == "phi" else "Σ(") + "; ".join(f"{g} → {x}" for x, g in it) + ")"
        if o == "ref":
            return "&" + self.path(a[0])
        if o == "call":
            x = list(map(s if a[0] in self.mutators else self.versioned, a[1:]))
            if a[0] in COMMUTE or a[0] in ("min", "max"):
                x.sort()
            return f"{a[0]}(" + ", ".join(x) + ")"
        if o == "post":
            b = s(a[1])
            return b if b.endswith("′") else b + "′"
        if o == "obj":
            b = s(a[0])
            return b if b.endswith("′") else b + "′"
        if o == "upd":
            rest = [s(x) for x in a[2:] if x is not a[1]]
            return f"⟨{s(a[1])} after {a[0]}({', '.join(rest)})⟩"
        if o == "with" and self.A.root(a[0]) is not None and self.A.root(a[0]).op != "cref":
            b = s(self.A.root(a[0]))
            return b if b.endswith("′") else b + "′"
        if o == "with":
            base = s(a[0])
            b0 = base.rstrip("′")
            keep, prime = [], base.endswith("′")
            for p, x in a[1]:
                t = s(x)
                r = self.rel(p)
                if t == b0 + r:
                    if prime:
                        keep.append(f"{r}:={t}")
                elif t == b0 + r + "′" or (x.op == "phi" and all(s(y) in (b0 + r, b0 + r + "′") for _, y in x.a[0])):
                    prime = True
                else:
                    keep.append(f"{r}:={t}")
            base = b0 + ("′" if prime else "")
            return base + ("[" + ", ".join(sorted(keep)) + "]" if keep else "")
        if o == "loop":
            return "acc"
        if o == "fold":
            return f"fold({s(a[1])}; {s(a[2])})"
        if o == "each":
            return f"each({s(a[0])})"
        if o == "bin":
            x = [s(a[1]), s(a[2])]
            if a[0] in ("Mul", "BitAnd", "BitOr", "BitXor", "Add"):
                x.sort()
            return f"({x[0]} {a[0]} {x[1]})"
        if o in ("eq",):
            x = sorted((s(a[0]), s(a[1])))
            return f"{x[0]} == {x[1]}"
        if o == "lt":
            return f"{s(a[0])} < {s(a[1])}"
        if o == "is":
            return f"{s(a[0])} is {a[1]}"
        if o == "fn":
            return "fn " + a[0]
        if o == "closure":
            return "closure(" + ", ".join(s(x) for x in a[1:]) + ")"
        if o == "lam":
            return "λ(" + s(a[0]) + ")"
        if o == "any":
            return "any(" + s(a[0]) + ")"
        if o == "entryref":
            return "entry(" + self.path(a[0]) + ")"
        return f"{o}(" + ", ".join(map(s, a)) + ")"

    def versioned(self, v):
        """A modified object read by a pure call: say which calls changed it before the read."""
        t = self.cs(v)
        if isinstance(v, N) and t.endswith("′"):
            ms = sorted(self.mutset(v))
            if ms:
                m = "+".join(ms)
                t += "{" + (m if len(m) <= 60 else hashlib.sha256(m.encode()).hexdigest()[:8]) + "}"
        return t

    def mutset(self, v):
        r = self.msmemo.get(v)
        if r is None:
            o = v.op
            if o == "post":
                r = self.mutset(v.a[1]) | {v.a[0].split("::")[-1] if not v.a[0].endswith(">") else v.a[0]}
            elif o == "obj":
                r = self.mutset(v.a[1])
            elif o == "with":
                r = self.mutset(v.a[0]) | {self.rel(p) for p, x in v.a[1] if self.A.root(x) is None}
            elif o in ("field", "as", "index"):
                r = self.mutset(v.a[0])
            elif o == "phi":
                r = frozenset().union(*[self.mutset(w) for _, w in v.a[0]])
            else:
                r = frozenset()
            self.msmemo[v] = r = frozenset(r)
        return r

    def fname(self, n):
        return self.A.f.alias.get(n, n) if hasattr(self.A.f, "alias") else n

    def rel(self, p):
        out = ""
        for e in p:
            if e[0] == "f":
                out += "." + self.fname(e[1])
            elif e[0] == "v":
                out += "!" + e[1]
            elif e[0] == "i":
                out += "[" + self.cs(e[1]) + "]"
            else:
                out += str(e)
        return out

    def path(self, p):
        r = p[0]
        b = self.cs(r[1]) if r[0] == "H" else "local"
        return b.replace("′", "") + self.rel(p[1:])

    # ---- guards
    def name(self, atom):
        n = self.atomname.get(atom)
        if n is None:
            n = self.cs(atom)
            k = self.used.get(n, 0)
            self.used[n] = k + 1
            if k:
                n = f"{n} #{k + 1}"
            self.atomname[atom] = n
        return n

    def payloads(self, x):
        """(value, variant) pairs whose payload occurs in x."""
        r = self.paymemo.get(x)
        if r is None:
            acc = {}
            if x.op == "as":
                acc[(x.a[0], x.a[1])] = 1
            for y in x.a:
                if isinstance(y, N):
                    acc.update(self.payloads(y))
                elif isinstance(y, tuple) and x.op in ("with", "lin"):
                    for t in y:
                        for z in (t if isinstance(t, tuple) else ()):
                            if isinstance(z, N):
                                acc.update(self.payloads(z))
            r = self.paymemo[x] = acc
        return r

    def domain(self, B, atoms):
        """Facts that hold of every execution between the atoms of one guard (used as don't-cares)."""
        c = 1
        var = lambda x: B.var(self.name(x))
        imp = lambda p, q: B.ite(p, q, 1)
        tests = {}
        for x in atoms:
            if x.op == "is":
                tests.setdefault(x.a[0], []).append(x)
        for v, xs in tests.items():
            for i, x in enumerate(xs):
                for y in xs[i + 1:]:
                    c = B.and_(c, B.not_(B.and_(var(x), var(y))))
        # payloads of different error types start with different selectors
        dec = [(v, xs) for v, xs in tests.items() if v.op == "call" and str(v.a[0]).endswith("::abi_decode")]
        for i, (v, xs) in enumerate(dec):
            for w, ys in dec[i + 1:]:
                if v.a[0] != w.a[0] and v.a[1:] == w.a[1:]:
                    for x in xs:
                        for y in ys:
                            if x.a[1] == y.a[1] == "Ok":
                                c = B.and_(c, B.not_(B.and_(var(x), var(y))))
        for x in atoms:
            for v, vn in self.payloads(x):
                for t in tests.get(v, ()):
                    if t is not x:
                        c = B.and_(c, imp(var(x), var(t) if t.a[1] == vn else B.not_(var(t))))
        cmpx = [x for x in atoms if x.op in ("lt", "eq")]
        for i, x in enumerate(cmpx):
            for y in cmpx[i + 1:]:
                for p, q in ((x, y), (y, x)):
                    r = self.relate(p, q)
                    if r == "imp":
                        c = B.and_(c, imp(var(p), var(q)))
                    elif r == "excl":
                        c = B.and_(c, B.not_(B.and_(var(p), var(q))))
        return c

    def relate(self, p, q):
        I = lambda n: n.a[0] if n.op == "int" else None
        if p.op == "lt" and q.op == "lt":
            if p.a[0] is q.a[1] and p.a[1] is q.a[0]:
                return "excl"
            if p.a[0] is q.a[0] and I(p.a[1]) is not None and I(q.a[1]) is not None and I(p.a[1]) <= I(q.a[1]):
                return "imp"
            if p.a[1] is q.a[1] and I(p.a[0]) is not None and I(q.a[0]) is not None and I(p.a[0]) >= I(q.a[0]):
                return "imp"
            if p.a[0] is q.a[1] and I(p.a[1]) is not None and I(q.a[0]) is not None and I(p.a[1]) <= I(q.a[0]) + 1:
                return "excl"
        elif p.op == "eq" and q.op == "lt":
            if {p.a[0], p.a[1]} == {q.a[0], q.a[1]}:
                return "excl"
            for u, w in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                if I(w) is None:
                    continue
                if q.a[0] is u and I(q.a[1]) is not None:
                    return "imp" if I(w) < I(q.a[1]) else "excl"
                if q.a[1] is u and I(q.a[0]) is not None:
                    return "imp" if I(w) > I(q.a[0]) else "excl"
        elif p.op == "eq" and q.op == "eq":
            for u, w in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                for s, t in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if u is s and w.op == t.op and w.op in ("int", "hex", "str") and w is not t:
                        return "excl"
        return None

    def gs(self, g, care=1):
        """Serialise a guard: canonical BDD over text-sorted atoms, printed as if-then-else."""
        if g == 1:
            return "T"
        if g == 0:
            return "F"
        r = self.gmemo.get((g, care))
        if r is not None:
            return r
        src = self.A.b
        atoms = src.support(g)
        for x in src.support(care) if care > 1 else ():
            if x not in atoms:
                atoms.append(x)
        names = sorted(((self.name(x), x) for x in atoms), key=lambda t: t[0])
        B = BDD()
        for n, x in names:
            B.var(n)
        memo = {}

        def conv(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = src.nodes[x]
            r = B.ite(B.var(self.name(src.atoms[v])), conv(hi), conv(lo))
            memo[x] = r
            return r
        n = conv(g)
        c = B.and_(conv(care), self.domain(B, atoms))
        if c > 1:
            linked = set(B.support(c))
            for a in B.support(n) if len(names) <= 40 else ():       # atoms that the others already decide
                if a not in linked:
                    continue
                p, q = B.exists(B.and_(n, c), a), B.exists(B.and_(B.not_(n), c), a)
                if B.and_(p, q) == 0:
                    n, c = p, B.exists(c, a)
            n = B.constrain(n, c)

        def pr(x, top=False):
            if x == 1:
                return "T"
            if x == 0:
                return "F"
            v, lo, hi = B.nodes[x]
            a = B.atoms[v]
            if lo == 0 and hi == 1:
                return f"[{a}]"
            if lo == 1 and hi == 0:
                return f"¬[{a}]"
            if lo == 0:
                return f"[{a}] ∧ {pr(hi)}"
            if hi == 0:
                return f"¬[{a}] ∧ {pr(lo)}"
            return f"([{a}] ? {pr(hi)} : {pr(lo)})"
        sz = {}

        def count(x):
            """Length of the if-then-else form (a tree), to decide whether to print it."""
            if x <= 1:
                return 1
            if x not in sz:
                sz[x] = 1 + count(B.nodes[x][1]) + count(B.nodes[x][2])
            return sz[x]
        if count(n) <= 120:
            r = pr(n, True)
        else:
            hs = {0: "F", 1: "T"}

            def h(x):
                if x not in hs:
                    v, lo, hi = B.nodes[x]
                    hs[x] = hashlib.sha256(f"{B.atoms[v]}|{h(lo)}|{h(hi)}".encode()).hexdigest()[:24]
                return hs[x]
            r = f"#{h(n)} over " + ", ".join(f"[{a}]" for a in sorted(B.support(n)))
        if len(r) > 4000:
            r = clip(r, 3000)
        self.gmemo[(g, care)] = r
        return r

    # ---- distribute phis outward
    def split(self, v, g, budget=MAXLEAF):
        """[(guard, phi-free value)] covering v under g."""
        A = self.A
        v = A.under(v, g)
        cur = [(g, v)]
        for _ in range(12):
            nxt, again = [], False
            for gg, x in cur:
                p = self.find_phi(x)
                if p is None:
                    nxt.append((gg, x))
                    continue
                if p.op == "bdd":
                    g1 = A.b.and_(gg, p.a[0])
                    g0 = A.b.and_(gg, A.b.not_(p.a[0]))
                    opts = [(g1, INT(1)), (g0, INT(0))]
                else:
                    opts = [(A.b.and_(gg, g2), w) for g2, w in p.a[0]]
                again = True
                for g2, w in opts:
                    if g2:
                        nxt.append((g2, self.subst(x, p, w)))
                if len(nxt) > budget:
                    return [(g, v)]
            cur = nxt
            if not again:
                break
        return cur

    def find_phi(self, v, d=0):
        if v.op in ("phi", "bdd"):
            return v if v.op == "bdd" or d == 0 or self.A.root(v) is None else None
        if d > 14 or v.op in ("post", "obj", "lam", "sum", "fold", "each", "any", "fn", "first", "pos"):
            return None
        for x in v.a:
            if isinstance(x, N):
                r = self.find_phi(x, d + 1)
                if r is not None:
                    return r
            elif isinstance(x, tuple) and v.op in ("with", "lin"):
                for y in x:
                    for z in y:
                        if isinstance(z, N):
                            r = self.find_phi(z, d + 1)
                            if r is not None:
                                return r
        return None

    def subst(self, v, p, w):
        if v is p:
            return w
        if v.op in ("post", "obj", "lam", "sum", "fold", "each", "any", "fn", "first", "pos", "int", "arg"):
            return v
        if v.op == "lin":
            r = INT(v.a[0])
            for x, c in v.a[1]:
                r = self.A.add(r, self.A.mul(INT(c), self.subst(x, p, w)))
            return r
        if v.op == "with":
            r = self.subst(v.a[0], p, w)
            for q, x in v.a[1]:
                r = self.A.update(r, q, self.subst(x, p, w))
            return r
        ch = False
        na = []
        for x in v.a:
            if isinstance(x, N):
                y = self.subst(x, p, w)
                ch = ch or y is not x
                na.append(y)
            else:
                na.append(x)
        if not ch:
            return v
        # re-normalise
        if v.op == "field":
            return self.A.project(na[0], ("f", na[1]))
        if v.op == "as":
            return self.A.project(na[0], ("v", na[1]))
        if v.op == "call" and na[0] in ("min", "max"):
            return self.A.minmax(na[0], na[1], na[2])
        return mk(v.op, *na)


def layered(b, layers, g):
    for i in range(len(layers)):
        if g == 0:
            return
        old = layers[i]
        layers[i] = b.or_(old, g)
        g = b.and_(old, g)
    if g:
        layers.append(g)


MEGA_ENUMS = None


def fresh(p):
    """A local, or memory this function allocated: what happens to it shows in the values that leave the function."""
    return p[0][0] == "L" or (p[0][0] == "H" and p[0][1].op == "call" and p[0][1].a[0] in ("new", "tmp"))


class Summary:
    def __init__(self, A, fn):
        self.A = A
        self.fn = fn
        self.C = C = Canon(A)
        b = A.b
        self.facts = {}           # key -> {value: guard}
        self.spans = {}
        self.order = set()
        care = A.out.g if A.out is not None else 1
        self.care = care
        # returned value
        if A.out is not None:
            if fn["locals"][0] == "bool":
                g = b.and_(care, A.to_bdd(self.snap(A.ret)))
                self.put("ret", "true", g)
                self.put("ret", "false", b.and_(care, b.not_(g)))
            else:
                self.decompose("ret", self.snap(A.ret), care)
            for r, d in A.out.m.items():
                if r[0] != "H" or r[1].op in ("cref",) or (r[1].op == "call" and r[1].a[0] in ("tmp", "new")):
                    continue
                init = {}
                for p in sorted(d, key=len):
                    if any(q != p and p[:len(q)] == q for q in d):
                        continue
                    self.state(A, p, care)
        # conditions under which it aborts instead of returning
        dead = b.any_(e.guard for e in A.events if e.kind == "panic")
        if dead:
            self.facts["panic"] = {"abort": dead}
            self.spans["panic"] = next((e.span for e in A.events if e.kind == "panic" and e.span), None)
        # rounds after which a loop goes on instead of leaving
        on = b.not_(b.or_(care, dead))
        if A.out is not None and on and A.loopn:
            self.facts["goes on"] = {"loop": on}
        for e in A.events:
            if e.kind == "leave":
                self.put("leaves the loop", C.cs(e.args[0]), e.guard)
        # effects
        evs = [e for e in A.events if e.kind == "call" and self.effectful(e)]
        calls = {}
        marks = []
        for e in evs:
            args = []
            mutp = e.muts or ()
            for v, t in zip(e.args, e.at or ["?"] * len(e.args)):
                args.append(v)
            for g, tup in C.split(mk("tuple", *args), e.guard):
                txt = []
                for i, v in enumerate(tup.a if tup.op == "tuple" else (tup,)):
                    mp = self.mutpath(e, i)
                    txt.append("&mut " + mp if mp else C.cs(v))
                desc = f"{e.name}({', '.join(txt)})"
                if e.loop:
                    desc = "∀ " + desc
                layered(b, calls.setdefault(desc, []), g)
                self.spans.setdefault("call " + desc, e.span)
                marks.append((e.seq, desc, g, mutp))
            # values written before the call into an object it can modify
            for p, v, g0 in e.raw or ():
                if fresh(p):
                    continue
                self.written(f"at {e.name}: {C.path(p)}", v, self.origin(p), b.and_(e.guard, g0))
        for desc, ls in calls.items():
            self.facts["call " + desc] = {f"≥{i + 1}": g for i, g in enumerate(ls)}
        # order between effects on overlapping objects
        marks.sort(key=lambda m: m[0])
        for i, (s1, d1, g1, m1) in enumerate(marks):
            for s2, d2, g2, m2 in marks[i + 1:]:
                if d1 == d2 or s1 == s2:
                    continue
                g12 = b.and_(g1, g2)
                if g12 == 0:
                    continue
                if self.conflict(m1, m2) and C.gs(g12) != "F":
                    self.order.add((d1, d2))
        both = {(x, y) for x, y in self.order if (y, x) in self.order}
        self.order -= both

    def snap(self, v):
        return self.A.snapshot(self.A.out, v)

    def mutpath(self, e, i):
        t = (e.at or [])[i] if e.at and i < len(e.at) else ""
        if (t.startswith("&mut") or re.match(r"^&'\w+ mut", t)) and e.paths and i < len(e.paths):
            if e.paths[i]:
                return self.C.path(e.paths[i])
        return None

    def conflict(self, m1, m2):
        for p in m1:
            for q in m2:
                n = min(len(p), len(q))
                if p[:n] == q[:n]:
                    return True
        return False

    def effectful(self, e):
        if e.name in SKIP_CALLS or e.name.startswith("fmt::") or "tracing" in e.path or "log::" in e.path:
            return False
        if re.match(r"^(std::option::Option<)?&('\w+ )?mut ", e.dt or ""):
            return False
        if e.muts and any(not fresh(p) for p in e.muts):
            return True
        if e.dt == "()" and not e.muts:
            return True
        return bool(EFFECT.match(e.name))

    def put(self, key, val, g):
        g = self.A.b.and_(g, 1)
        if g:
            d = self.facts.setdefault(key, {})
            d[val] = self.A.b.or_(d.get(val, 0), g)

    def state(self, A, p, care):
        v = A.read(A.out, p)
        init = mk("deref", p[0][1])
        for e in p[1:]:
            init = A.project(init, e)
        if v is init:
            return
        key = "state " + self.C.path(p)
        v = self.snap(v)
        self.decompose(key, v, care, init)
        # fields written after the last call that received the object by mutable reference
        for g, w in A.leaves(v, care):
            if w.op == "with":
                self.written(key, w, A.root(init), g)

    def origin(self, p):
        return self.A.root(self.sub(mk("deref", p[0][1]), p[1:]))

    def written(self, key, v, own, g, d=0):
        """What has been written into the object `own` (of which v is a version) since the last call that could modify it."""
        A, C = self.A, self.C
        for g1, w in A.leaves(v, g):
            if w.op == "with" and A.root(w.a[0]) is not None and d < 8:
                if w.a[0].op in ("phi", "with"):
                    self.written(key, w.a[0], own, g1, d + 1)
                for rel, x in w.a[1]:
                    self.written(key + C.rel(rel), x, self.sub(A.root(w.a[0]), rel), g1, d + 1)
                continue
            for g2, y in C.split(w, g1):
                if A.root(y) is own or y.op in ("undef", "bottom", "loop") or y.op == "fold" and A.root(y.a[1]) is not None:
                    continue
                if C.cs(y).replace("′", "") != key.split(": ")[-1].split("state ")[-1]:
                    self.decompose(key, y, g2)

    def sub(self, v, rel):
        for e in rel:
            v = self.A.project(v, e)
        return v

    def decompose(self, key, v, g, init=None, d=0):
        A, C = self.A, self.C
        v = A.under(v, g)
        ls = self.minmax(A.leaves(v, g))
        if init is None and d < 6:
            ls = self.eta(ls, g)
        groups = {}
        kept = 0
        for g2, w in ls:
            if w.op == "with" and init is not None and w.a[0] is init:
                w2 = w
            if w.op == "agg" and w.a[0] != "" and d < 6:
                groups.setdefault((w.a[0], w.a[1], w.a[2]), []).append((g2, w))
            elif w.op == "tuple" and w.a and d < 6:
                groups.setdefault(("(tuple)", "", tuple(str(i) for i in range(len(w.a)))), []).append((g2, w))
            else:
                if init is not None and w is init:
                    kept = A.b.or_(kept, g2)
                    continue
                if w.op == "undef" or w.op == "bottom":
                    continue
                for g3, x in C.split(w, g2):
                    if init is not None and x is init:
                        kept = A.b.or_(kept, g3)
                        continue
                    if x.op == "agg" and d < 6:
                        groups.setdefault((x.a[0], x.a[1], x.a[2]), []).append((g3, x))
                    else:
                        t = C.cs(x)
                        if not (key.startswith("state ") and t == key[6:] + "′"):
                            self.put(key, t, g3)
        for (adt, var, names), items in groups.items():
            n = adt.split("::")[-1]
            gg = A.b.any_(x for x, _ in items)
            multi = A.variants(adt) is not None
            k2 = key
            was = None
            if multi and init is not None and names:
                # rewriting the variant a field already has, or leaving it, is only a change of its payload
                was = A.is_variant(init, adt, var)
                stay = A.b.and_(kept, was)
                if stay:
                    ini = A.project(init, ("v", var))
                    items = items + [(stay, agg(adt, var, names, [A.project(ini, ("f", nm)) for nm in names]))]
                allg = A.b.or_(gg, stay)
                gg = A.b.and_(gg, A.b.not_(was))
                if gg:
                    self.put(key, f"{n}::{var}", gg)
                for i, nm in enumerate(names):
                    sub = A.phi([(x, w.a[3 + i]) for x, w in items])
                    self.decompose(f"{key}!{var}.{C.fname(nm)}", sub, allg, A.project(A.project(init, ("v", var)), ("f", nm)), d + 1)
                continue
            if multi:
                A.spec_used |= n == "MegaSpecId"
                self.put(key, f"{n}::{'$SPEC' if n == 'MegaSpecId' and var == A.spec else var}", gg)
                k2 = f"{key}!{var}"
            elif not names:
                self.put(key, n, gg)
            for i, nm in enumerate(names):
                sub = A.phi([(x, (w.a[3 + i] if w.op == "agg" else w.a[i])) for x, w in items])
                self.decompose(f"{k2}.{C.fname(nm)}", sub, gg, None, d + 1)

    def eta(self, ls, g):
        """An Option or Result built in one case and passed on in another is taken apart in both."""
        A = self.A
        def changed(w):
            if w.op == "with":
                for p, _ in w.a[1]:
                    if p[0][0] == "v" and p[0][1] in ETA:
                        return ETA[p[0][1]]
            return None
        adt = None
        for _, w in ls:
            adt = adt or (w.a[0] if w.op == "agg" and w.a[0] in (OPT, RES) else changed(w))
        if adt is None or all(w.op == "agg" for _, w in ls):
            return ls
        unit = any(w is ok(UNIT) for _, w in ls)
        out = []
        for g2, w in ls:
            if w.op in ("agg", "undef", "bottom", "phi"):
                out.append((g2, w))
                continue
            base = w
            while base.op == "with" and changed(base):
                base = base.a[0]
            c = A.is_variant(base, adt, "Some" if adt == OPT else "Ok")
            for h, var in ((A.b.and_(g2, c), "Some" if adt == OPT else "Ok"), (A.b.and_(g2, A.b.not_(c)), "None" if adt == OPT else "Err")):
                if h:
                    out.append((h, NONE if var == "None" else ok(UNIT) if unit and var == "Ok" else agg(adt, var, ("0",), [A.project(A.project(w, ("v", var)), ("f", "0"))])))
        return out

    def minmax(self, ls):
        A = self.A
        if len(ls) < 2 or len(ls) > 12:
            return ls
        acc = {}
        for g, w in ls:
            acc[w] = A.b.or_(acc.get(w, 0), g)
        return [(g, w) for w, g in A.choose(acc).items()]

    # ---- text form
    def text(self):
        out = {}
        b = self.A.b
        for k, d in self.facts.items():
            o = {}
            for val, g in d.items():
                t = self.C.gs(g, 1 if k.startswith(("call ", "at ", "panic", "goes on", "leaves")) else self.care)
                if t != "F":
                    o[val] = t
            if not o:
                continue
            if len(o) == 1 and k.startswith(("ret", "state")) and next(iter(o.values())) == "T":
                out[k] = next(iter(o))
            else:
                out[k] = o
        return out
