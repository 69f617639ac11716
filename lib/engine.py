"""Interprocedural gated value-flow analysis over the MIR facts dumped by /verif/driver.

One abstract pass over a function (local callees inlined) computes, without running anything:
  * for every program point the guard under which it is reached, as a canonical boolean function
    (BDD) of opaque atoms (comparisons, enum tests, opaque boolean calls);
  * for every value a hash-consed expression of the inputs (gated phi at control-flow joins);
  * the list of effects: calls that leave the crate and writes to memory that outlives the call.
There is no path enumeration, no feasibility solver and no concrete input.  Loops are summarised by
havocking what the body changes.  `spec` specialises every MegaSpecId read to one hard fork, i.e.
conditional constant propagation.
"""
import json
import lzma
import os
import re
import sys

from bdd import BDD

sys.setrecursionlimit(100000)


class N:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_intern = {}


def mk(op, *a):
    k = (op,) + a
    n = _intern.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.id = len(_intern)
        _intern[k] = n
    return n


# traits which their crate implements for references by forwarding to what the reference points to
FORWARDED = {"revm::revm_context::ContextTr", "revm::revm_interpreter::Host"}


def bits(op, *vs):
    """A bitwise and/or/xor: flattened, constants folded into one, operands ordered."""
    f = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q}[op]
    c, out, todo = None, [], list(vs)
    while todo:
        v = todo.pop()
        if v.op == "bin" and v.a[0] == op:
            todo += v.a[1:]
        elif v.op == "int":
            c = v.a[0] if c is None else f(c, v.a[0])
        elif op == "BitXor" and v in out:
            out.remove(v)
        elif v not in out:
            out.append(v)
    if op == "BitAnd" and c == 0:
        return INT(0)
    if c is not None and (not out or not (c == 0 and op != "BitAnd")):
        out.append(INT(c))
    if not out:
        return INT(0)
    out.sort(key=lambda t: t.id)
    r = out[0]
    for v in out[1:]:
        r = mk("bin", op, r, v)
    return r


def INT(v):
    return mk("int", int(v))


UNIT = mk("tuple")
UNDEF = mk("undef")

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
TWO = {OPT: ["None", "Some"], RES: ["Ok", "Err"], CF: ["Continue", "Break"]}


def agg(adt, variant, names, vals):
    return mk("agg", adt, variant, tuple(names), *vals)


def some(v):
    return agg(OPT, "Some", ("0",), (v,))


NONE = agg(OPT, "None", (), ())


def ok(v):
    return agg(RES, "Ok", ("0",), (v,))


def err(v):
    return agg(RES, "Err", ("0",), (v,))


def short(path):
    p = re.sub(r"<[^<>]*>", "", path)
    while "<" in p and re.search(r"<[^<>]*>", p):
        p = re.sub(r"<[^<>]*>", "", p)
    return "::".join([x for x in p.split("::") if x][-2:])


def base_ty(t):
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
    return t


def const_arg(a):
    """Value of a literal const generic argument."""
    if a in ("true", "false"):
        return INT(1 if a == "true" else 0)
    m = re.fullmatch(r"(\d+)(_?[ui](8|16|32|64|128|size))?", a)
    return INT(int(m.group(1))) if m else None


def strip_generics(t):
    out, d = [], 0
    for c in t:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


def occurs(n, v, memo=None):
    memo = {} if memo is None else memo
    if v is n:
        return True
    if v in memo:
        return memo[v]
    r = False
    for x in v.a:
        if isinstance(x, N):
            r = r or occurs(n, x, memo)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, N):
                            r = r or occurs(n, z, memo)
        if r:
            break
    memo[v] = r
    return r


def occurs_deep(b, n, v):
    """n occurs in v, also inside guards."""
    return n in b.inside(v)


# ---------------------------------------------------------------- printing
class Show:
    bdd = None


def show(v, d=0, md=9):
    if not isinstance(v, N):
        return str(v)
    if d > md:
        return "…"
    s = lambda x: show(x, d + 1, md)
    o, a = v.op, v.a
    if o == "int":
        return str(a[0])
    if o in ("hex", "str", "cname"):
        return str(a[0])[:40]
    if o == "arg":
        return a[0]
    if o == "deref":
        return s(a[0])
    if o == "field":
        return f"{s(a[0])}.{a[1]}"
    if o == "as":
        return f"{s(a[0])}!{a[1]}"
    if o == "index":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "agg":
        n = a[0].split("::")[-1]
        t = n if a[1] == n else f"{n}::{a[1]}"
        return t + ("{" + ", ".join(f"{k}:{s(x)}" for k, x in zip(a[2], a[3:])) + "}" if a[3:] else "")
    if o == "tuple":
        return "(" + ", ".join(map(s, a)) + ")"
    if o == "array":
        return "[" + ", ".join(map(s, a)) + "]"
    if o == "lin":
        t = []
        for x, c in a[1]:
            t.append(("+" if c > 0 else "-") + ("" if abs(c) == 1 else f"{abs(c)}*") + s(x))
        if a[0]:
            t.append(f"{a[0]:+d}")
        return "(" + " ".join(t) + ")"
    if o == "bdd":
        return "{" + show_g(a[0], d + 1, md) + "}"
    if o == "phi":
        return "φ(" + "; ".join(f"{show_g(g, d + 1, md)} → {s(x)}" for g, x in a[0]) + ")"
    if o == "ref":
        return "&" + show_path(a[0], d, md)
    if o == "call":
        return f"{a[0]}(" + ", ".join(map(s, a[1:])) + ")"
    if o == "post":
        return f"⟨{s(a[1])} after {a[0]}⟩"
    if o == "with":
        return f"{s(a[0])}[" + ", ".join(f"{show_rel(p)}:={s(x)}" for p, x in a[1]) + "]"
    if o == "loop":
        return f"acc{a[0]}.{a[1]}"
    if o == "fold":
        return f"fold({s(a[1])}; {s(a[2])})"
    if o == "sum":
        return "Σ(" + "; ".join(f"{show_g(g, d + 1, md)} → {s(x)}" for g, x in a[0]) + ")"
    if o in ("eq", "lt"):
        return f"{s(a[0])} {'==' if o == 'eq' else '<'} {s(a[1])}"
    if o == "is":
        return f"{s(a[0])} is {a[1]}"
    if o == "fn":
        return "fn " + a[0]
    return f"{o}(" + ", ".join(map(s, a)) + ")"


def show_rel(p):
    out = ""
    for e in p:
        if e[0] == "f":
            out += "." + e[1]
        elif e[0] == "v":
            out += "!" + e[1]
        elif e[0] == "i":
            out += "[" + show(e[1]) + "]"
        else:
            out += str(e)
    return out


def show_path(p, d=0, md=9):
    r = p[0]
    b = show(r[1], d + 1, md) if r[0] == "H" else f"L{r[1]}.{r[2]}"
    return b + show_rel(p[1:])


def show_g(g, d=0, md=9):
    if g == 1:
        return "T"
    if g == 0:
        return "F"
    b = Show.bdd
    cs = b.cubes(g, 12)
    t = []
    for c in cs[:12]:
        t.append(" ∧ ".join(("" if pos else "¬") + "(" + show(at, d + 1, md) + ")" for at, pos in c))
    return " ∨ ".join(t) + (" ∨ …" if len(cs) > 12 else "")


# ---------------------------------------------------------------- facts
class Facts:
    def __init__(self, files):
        self.fns = {}
        self.enums = dict(TWO)
        self.adts = {}
        self.impls = []
        self.cparams = set()          # names of const generic parameters
        for f in files:
            with (lzma.open(f, "rt") if f.endswith(".xz") else open(f)) as fh:
                txt = fh.read()
            self.cparams |= set(re.findall(r'"cty": ?"(\w+)"', txt))
            d = json.loads(txt)
            for x in d["fns"]:
                self.fns[x["key"]] = x
            for a in d["adts"]:
                self.adts[a["path"]] = a
            self.impls += d["impls"]
            for k, v in d["enums"].items():
                self.enums[k] = [x[0] for x in v]
                self.enums[k + "#d"] = {x[0]: int(x[1]) for x in v}
        for k in list(TWO):
            self.enums[k] = TWO[k]
        self.by_name = {}
        for k, f in self.fns.items():
            self.by_name.setdefault(f.get("name"), []).append(f)

    def find(self, name, ty=None, trait=None, mod=None, kind=None):
        """Functions by name, Self type (last path segment), implemented trait, module."""
        out = []
        for f in self.by_name.get(name, []):
            if kind and f["kind"] != kind:
                continue
            if ty is not None and strip_generics(f.get("impl_ty", "")).split("::")[-1] != ty:
                continue
            if trait is not None and f.get("impl_trait", "").split("::")[-1] != trait:
                continue
            if trait is None and ty is not None and f.get("impl_trait"):
                continue
            if mod is not None and mod not in f["key"]:
                continue
            out.append(f)
        return out

    def one(self, name, **kw):
        r = self.find(name, **kw)
        if len(r) != 1:
            raise MissingAnchor(f"anchor {kw} {name}: {len(r)} matches")
        return r[0]


class MissingAnchor(Exception):
    pass


class Event:
    __slots__ = ("kind", "name", "path", "args", "paths", "guard", "seq", "span", "stack", "loop", "res", "old", "gen", "muts", "at", "dt", "raw")

    def __init__(self, **k):
        for x in self.__slots__:
            setattr(self, x, k.get(x))

    def __repr__(self):
        if self.kind == "write":
            return f"#{self.seq} [{show_g(self.guard)}] {show_path(self.path)} := {show(self.args[0])}"
        return f"#{self.seq} [{show_g(self.guard)}] {self.kind} {self.name}(" + ", ".join(map(show, self.args)) + ")"


class State:
    __slots__ = ("g", "m")

    def __init__(self, g, m):
        self.g = g
        self.m = m

    def copy(self, g=None):
        return State(self.g if g is None else g, {r: dict(d) for r, d in self.m.items()})


COMMUTE = ("saturating_add", "saturating_mul", "checked_add", "checked_mul", "wrapping_add", "wrapping_mul", "overflowing_add")
FROZEN = {"spec", "additional_limit", "volatile_data_tracker", "disable_beneficiary", "disable_sandbox",
          "dynamic_storage_gas_cost", "oracle_env", "spec_id"}
# take &mut self but only read
PURE_MUT = {"LoopControl::instruction_result", "LoopControl::action", "CallInput::bytes"}
FROZEN_RC = {"additional_limit", "volatile_data_tracker", "dynamic_storage_gas_cost", "oracle_env"}
CTX_TY = re.compile(r"MegaContext|MegaEvm|\bH\b|\bEVM\b|\bSelf\b")


def has_closure(v, d=0):
    return any(isinstance(x, N) and (x.op == "closure" or (d < 5 and x.op in ("agg", "tuple", "array", "it") and has_closure(x, d + 1)))
               for x in v.a)


class Analysis:
    def __init__(self, facts, spec=None, noinline=(), depth=14, devirt=None, inline_default=(), consts=None, boundary=None):
        self.f = facts
        self.b = BDD()
        Show.bdd = self.b
        self.spec = spec
        self.spec_used = False
        self.noinline = noinline
        self.maxdepth = depth
        self.events = []
        self.ltp = {}
        self.fid = 0
        self.loopn = 0
        self.muted = 0
        self.loopdepth = 0
        self.inloop = 0
        self.loop_elems = []
        self.unroll = []
        self.skips = []
        self.last_muts = ()
        self.stack = []
        self.devirt = devirt or {}
        self.inline_default = set(inline_default)
        self.boundary = boundary
        self.consts = consts or {}
        self.inlined = set()
        self.opaque = {}
        self.nblocks = 0
        self.promo_cache = {}
        self.rootmemo = {}
        self.raw_vals = ()

    # ------------------------------------------------------------ values
    def phi(self, pairs):
        b = self.b
        acc = {}
        for g, v in pairs:
            if g == 0:
                continue
            if v.op == "phi":
                for g2, w in v.a[0]:
                    gg = b.and_(g, g2)
                    if gg:
                        acc[w] = b.or_(acc.get(w, 0), gg)
            else:
                acc[v] = b.or_(acc.get(v, 0), g)
        if not acc:
            return UNDEF
        if len(acc) > 1 and UNDEF in acc:
            del acc[UNDEF]
        if len(acc) == 1:
            return next(iter(acc))
        if all(w.op in ("bdd",) or (w.op == "int" and w.a[0] in (0, 1)) for w in acc) and any(
                w.op == "bdd" for w in acc):
            r = 0
            for w, g in acc.items():
                r = b.or_(r, b.and_(g, self.to_bdd(w)))
            return mk("bdd", r)
        if len(acc) <= 40:
            acc = self.uneta(acc)
            if len(acc) == 1:
                return next(iter(acc))
        if len(acc) <= 40 and self.ltp:
            acc = self.choose(acc)
            if len(acc) == 1:
                return next(iter(acc))
        items = tuple(sorted(((g, v) for v, g in acc.items()), key=lambda t: t[1].id))
        return mk("phi", items)

    def choose(self, acc):
        """Rewrite a choice between x and y decided by x < y into min/max, and one between x - y and 0 into a saturating
        subtraction, whatever else the guards depend on."""
        b, zero = self.b, INT(0)
        for x in list(acc):
            for y, at, form in self.ltp.get(x, ()):
                gx, gy = acc.get(x), acc.get(y)
                if not gx or not gy or x is y:
                    continue
                v = b.var(at)
                if form is None:
                    alt = ((lambda: self.minmax("min", x, y), x, y, gx, gy), (lambda: self.minmax("max", x, y), y, x, gy, gx))
                else:
                    m, pos = form                          # x (rather than zero) when the atom is `pos`
                    alt = ((lambda: m, x, y, gx, gy),) if pos else ((lambda: m, y, x, gy, gx),)
                for mkv, p, q, gp, gq in alt:
                    r = b.and_(b.restrict(gp, at, True), b.restrict(gq, at, False))      # x < y picks p, otherwise q
                    if r:
                        acc = dict(acc)
                        acc[p] = b.and_(acc[p], b.not_(b.and_(r, v)))
                        acc[q] = b.and_(acc[q], b.not_(b.and_(r, b.not_(v))))
                        w = mkv()
                        acc[w] = b.or_(acc.get(w, 0), r)
                        acc = {w: g for w, g in acc.items() if g}
                        break
        return acc

    def uneta(self, acc):
        """`match w { Ok(x) => Ok(x), Err(e) => Err(e) }` is w (with () for x too, when that is what is returned); so for Option."""
        b = self.b
        for v in list(acc):
            if v.op != "agg" or v.a[0] not in (RES, OPT) or v.a[1] not in ("Err", "Some") or v not in acc:
                continue
            e = v.a[3]
            if e.op != "field" or e.a[1] != "0" or e.a[0].op != "as" or e.a[0].a[1] != v.a[1]:
                continue
            w = e.a[0].a[0]
            other = [u for u in (ok(UNIT), ok(mk("field", mk("as", w, "Ok"), "0"))) if u in acc] if v.a[1] == "Err" else [NONE] if NONE in acc else []
            c = self.is_variant(w, v.a[0], v.a[1])
            at = b.support(c)
            if len(at) != 1:
                continue
            pos = b.restrict(c, at[0], True) == 1
            for u in other:
                if v not in acc or u not in acc:
                    continue
                r = b.and_(b.restrict(acc[v], at[0], pos), b.restrict(acc[u], at[0], not pos))
                if r:
                    acc = dict(acc)
                    acc[v] = b.and_(acc[v], b.not_(b.and_(r, c)))
                    acc[u] = b.and_(acc[u], b.not_(b.and_(r, b.not_(c))))
                    acc[w] = b.or_(acc.get(w, 0), r)
                    acc = {x: g for x, g in acc.items() if g}
        return acc

    def note_lt(self, x, y, at, uns):
        def add(k, *e):
            self.ltp.setdefault(k, {})[e] = 1
        add(x, y, at, None)
        zero = INT(0)
        ys = [y]
        if uns and y.op == "int":
            ys.append(INT(y.a[0] - 1))
            add(x, ys[1], at, None)
        if uns:
            if y.op != "int":
                add(self.add(y, x, -1), zero, at, (mk("call", "saturating_sub", y, x), True))
            for z in ys:
                if z.op != "int" or z.a[0] > 0:
                    add(self.add(x, z, -1), zero, at, (mk("call", "saturating_sub", x, z), False))

    def minmax(self, op, a, b):
        if a is b:
            return a
        if a.op == "int" and b.op == "int":
            return INT(min(a.a[0], b.a[0]) if op == "min" else max(a.a[0], b.a[0]))
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("call", op, x, y)

    def leaves(self, v, g=1):
        if v.op == "phi":
            out = []
            for g2, w in v.a[0]:
                gg = self.b.and_(g, g2)
                if gg:
                    out.append((gg, w))
            return out
        return [(g, v)]

    def under(self, v, g):
        """Simplify a phi under guard g."""
        if v.op == "phi":
            ls = [(g2, w) for g2, w in v.a[0] if self.b.and_(g, g2)]
            if len(ls) == 1:
                return ls[0][1]
            if len(ls) < len(v.a[0]):
                return self.phi([(self.b.and_(g2, g), w) for g2, w in ls])
        elif v.op == "bdd":
            n = self.b.simplify(v.a[0], g)
            return mk("bdd", n) if n > 1 else INT(n)
        return v

    def dist(self, fn, *vs):
        """Apply fn leaf-wise over phis (bounded)."""
        n = 1
        for v in vs:
            n *= len(v.a[0]) if v.op == "phi" else 1
        if n == 1:
            return fn(*vs)
        if n > 4096:
            return None
        combos = []

        def go(i, g, acc):
            if len(combos) > 64:
                return
            if i == len(vs):
                combos.append((g, acc))
                return
            for g2, w in self.leaves(vs[i], g):
                go(i + 1, g2, acc + [w])
        go(0, 1, [])
        if len(combos) > 64:
            return None
        return self.phi([(g, fn(*acc)) for g, acc in combos])

    def lin_parts(self, v):
        if v.op == "int":
            return v.a[0], {}
        if v.op == "lin":
            return v.a[0], dict(v.a[1])
        return 0, {v: 1}

    def mklin(self, c, t):
        t = {k: x for k, x in t.items() if x}
        if not t:
            return INT(c)
        if c == 0 and len(t) == 1:
            (k, x), = t.items()
            if x == 1:
                return k
        return mk("lin", c, tuple(sorted(t.items(), key=lambda z: z[0].id)))

    def add(self, a, b, sign=1):
        def f(x, y):
            c1, t1 = self.lin_parts(x)
            c2, t2 = self.lin_parts(y)
            t = dict(t1)
            for k, v in t2.items():
                t[k] = t.get(k, 0) + sign * v
            return self.mklin(c1 + sign * c2, t)
        r = self.dist(f, a, b)
        return r if r is not None else mk("bin", "Add" if sign > 0 else "Sub", a, b)

    def mul(self, a, b):
        def f(x, y):
            if y.op == "int":
                x, y = y, x
            if x.op == "int":
                c, t = self.lin_parts(y)
                return self.mklin(c * x.a[0], {k: v * x.a[0] for k, v in t.items()})
            x, y = sorted((x, y), key=lambda z: z.id)
            return mk("bin", "Mul", x, y)
        r = self.dist(f, a, b)
        return r if r is not None else mk("bin", "Mul", a, b)

    def variants(self, adt):
        return self.f.enums.get(strip_generics(adt))

    def is_variant(self, v, adt, variant):
        """BDD of `v is variant`."""
        adt = strip_generics(adt or "")
        b = self.b
        if v.op == "phi":
            return b.any_(b.and_(g, self.is_variant(w, adt, variant)) for g, w in v.a[0])
        if v.op == "agg" and (self.variants(v.a[0]) or v.a[1] == variant):
            return 1 if v.a[1] == variant else 0
        if v.op == "with":
            return self.is_variant(v.a[0], adt, variant)
        vs = self.variants(adt)
        if not vs or variant not in vs:
            return b.var(mk("is", v, variant))
        # order-encoded: canonical, exclusive and exhaustive
        if vs in (["None", "Some"], ["Ok", "Err"], ["Continue", "Break"]) or len(vs) == 2:
            pos = b.var(mk("is", v, vs[1] if vs[1] in ("Some",) else vs[0]))
            first = vs[1] if vs[1] in ("Some",) else vs[0]
            return pos if variant == first else b.not_(pos)
        i = vs.index(variant)
        r = 1
        for j in range(i):
            r = b.and_(r, b.not_(b.var(mk("is", v, vs[j]))))
        if i < len(vs) - 1:
            r = b.and_(r, b.var(mk("is", v, variant)))
        return r

    def eq(self, x, y):
        b = self.b
        if x is y:
            return 1
        if x.op == "phi" or y.op == "phi":
            return b.any_(b.and_(gg, self.eq(w, w2)) for g, w in self.leaves(x) for gg, w2 in self.leaves(y, g))
        ops = {x.op, y.op}
        if ops == {"int"} or ops == {"hex"} or ops == {"str"}:
            return 0
        if "bdd" in ops:
            m, n = self.to_bdd(x), self.to_bdd(y)
            return b.ite(m, n, b.not_(n))
        for p, q in ((x, y), (y, x)):
            if p.op == "agg":
                if q.op == "agg":
                    if p.a[1] != q.a[1]:
                        return 0
                    if len(p.a) != len(q.a):
                        break
                    return b.all_(self.eq(u, w) for u, w in zip(p.a[3:], q.a[3:]))
                vs = self.variants(p.a[0])
                if vs:
                    r = self.is_variant(q, p.a[0], p.a[1])
                    for nm, fv in zip(p.a[2], p.a[3:]):
                        r = b.and_(r, self.eq(self.project(self.project(q, ("v", p.a[1])), ("f", nm)), fv))
                    return r
            if p.op == "discr" and q.op == "int":
                adt = p.a[1]
                d = self.f.enums.get(strip_generics(adt) + "#d") or {}
                if not d and strip_generics(adt) in TWO:
                    d = {n: i for i, n in enumerate(TWO[strip_generics(adt)])}
                for nm, dv in d.items():
                    if dv == q.a[0]:
                        return self.is_variant(p.a[0], adt, nm)
                break
            if p.op == "tuple" and q.op == "tuple" and len(p.a) == len(q.a):
                return b.all_(self.eq(u, w) for u, w in zip(p.a, q.a))
        if x.op == "discr" and y.op == "discr":
            pass
        d = self.add(x, y, -1)
        if d.op == "int":
            return 1 if d.a[0] == 0 else 0
        u, w = sorted((x, y), key=lambda t: t.id)
        if u.op == "int":
            u, w = w, u
        return b.var(mk("eq", u, w))

    def lt(self, x, y, ty=""):
        b = self.b
        if x is y:
            return 0
        if x.op == "phi" or y.op == "phi":
            return b.any_(b.and_(gg, self.lt(w, w2, ty)) for g, w in self.leaves(x) for gg, w2 in self.leaves(y, g))
        if x.op == "int" and y.op == "int":
            return 1 if x.a[0] < y.a[0] else 0
        if ty.startswith("u") or "Uint" in ty or "usize" in ty:
            if y.op == "int" and (y.a[0] == 0 or y.a[0] >= 2 ** 64 and ty in ("u64", "usize")):
                return 1 if y.a[0] else 0
            if x.op == "int" and x.a[0] == 0:
                return b.not_(self.eq(y, x))
            if y.op == "int" and y.a[0] == 1:
                return self.eq(x, INT(0))
            if x.op == "int":
                return b.not_(self.lt(y, INT(x.a[0] + 1), ty))
            if y.op == "lin":
                c, t = self.lin_parts(y)
                if c == 1:
                    return b.not_(self.lt(self.mklin(c - 1, t), x, ty))
        dx, dy = self.discr_val(x), self.discr_val(y)
        if dx is not None and dy is not None:
            return 1 if dx < dy else 0
        at = mk("lt", x, y)
        self.note_lt(x, y, at, ty.startswith("u") or "Uint" in ty)
        return b.var(at)

    def discr_val(self, v):
        if v.op == "int":
            return v.a[0]
        if v.op == "agg":
            d = self.f.enums.get(strip_generics(v.a[0]) + "#d")
            if d:
                return d.get(v.a[1])
        return None

    def to_bdd(self, v):
        b = self.b
        if v.op == "bdd":
            return v.a[0]
        if v.op == "int":
            return 1 if v.a[0] else 0
        if v.op == "phi":
            return b.any_(b.and_(g, self.to_bdd(w)) for g, w in v.a[0])
        if v.op == "undef":
            return 0
        return b.var(v)

    def B(self, n):
        return INT(n) if n <= 1 else mk("bdd", n)

    # ------------------------------------------------------------ structure
    def project(self, v, e):
        k = e[0]
        if v.op == "phi":
            out = []
            for g, w in v.a[0]:
                r = self.project(w, e)
                if r.op == "bottom":
                    continue
                out.append((g, r))
            if len(out) == 1:
                return out[0][1]
            return self.phi(out) if out else mk("bottom")
        if v.op in ("bottom", "undef"):
            return v
        if k == "v":
            if v.op == "agg":
                return v if v.a[1] == e[1] else mk("bottom")
            if v.op == "with":
                inner = self.project(v.a[0], e)
                ups = [(p, x) for p, x in v.a[1]]
                ups2 = tuple((p[1:], x) for p, x in ups if p[0] == e)
                return mk("with", inner, ups2) if ups2 else inner
            return mk("as", v, e[1])
        if k == "f":
            n = e[1]
            if v.op == "agg":
                if n in v.a[2]:
                    return v.a[3 + v.a[2].index(n)]
                return mk("field", v, n)
            if v.op == "tuple":
                if n.isdigit() and int(n) < len(v.a):
                    return v.a[int(n)]
            if v.op == "closure":
                if n.isdigit() and int(n) < len(v.a) - 1:
                    return v.a[1 + int(n)]
            if v.op == "int" and n == "0":
                return v
            if v.op == "with":
                rest = []
                base = self.project(v.a[0], e)
                for p, x in v.a[1]:
                    if p == (e,):
                        base = x
                    elif p[0] == e:
                        base = self.update(base, p[1:], x)
                return base
            if v.op in ("post", "upd") and n in FROZEN:
                return self.project(v.a[1], e)
            return mk("field", v, n)
        if k == "i":
            i = e[1]
            if v.op == "array" and i.op == "int" and 0 <= i.a[0] < len(v.a):
                return v.a[i.a[0]]
            if v.op == "repeat":
                return v.a[0]
            if i.op == "pos" and i.a[0] is v:
                return mk("first", v, i.a[1])
            if v.op == "with":
                for p, x in reversed(v.a[1]):
                    if p == (e,):
                        return x
                return self.project(v.a[0], e)
            return mk("index", v, i)
        return mk("proj", v, str(e))

    def update(self, v, rel, x):
        if not rel:
            return x
        e = rel[0]
        if v.op == "agg" and e[0] == "v" and v.a[1] == e[1]:
            return self.update(v, rel[1:], x)
        if v.op == "agg" and e[0] == "f" and e[1] in v.a[2]:
            i = v.a[2].index(e[1])
            vals = list(v.a[3:])
            vals[i] = self.update(vals[i], rel[1:], x)
            return agg(v.a[0], v.a[1], v.a[2], vals)
        if v.op == "tuple" and e[0] == "f" and e[1].isdigit() and int(e[1]) < len(v.a):
            vals = list(v.a)
            vals[int(e[1])] = self.update(vals[int(e[1])], rel[1:], x)
            return mk("tuple", *vals)
        if v.op == "array" and e[0] == "i" and e[1].op == "int" and e[1].a[0] < len(v.a):
            vals = list(v.a)
            vals[e[1].a[0]] = self.update(vals[e[1].a[0]], rel[1:], x)
            return mk("array", *vals)
        cur = v
        for q in rel:
            cur = self.project(cur, q)
        if cur is x:
            return v
        ups = {}
        base = v
        if v.op == "with":
            base = v.a[0]
            ups = dict(v.a[1])
        for p in list(ups):
            if p[:len(rel)] == rel:
                del ups[p]
        for p in ups:
            if rel[:len(p)] == p:                          # part of something already replaced
                rel, x = p, self.update(ups[p], rel[len(p):], x)
                break
        ups[rel] = x
        return mk("with", base, tuple(sorted(ups.items(), key=lambda t: str([(q[0], q[1] if isinstance(q[1], str) else q[1].id) if len(q) > 1 else q for q in t[0]]))))

    # ------------------------------------------------------------ memory
    def read(self, st, path, ext=True):
        d = st.m.get(path[0])
        v = None
        if d:
            for k in range(len(path), 0, -1):
                p = path[:k]
                if p in d:
                    v = d[p]
                    for e in path[k:]:
                        v = self.project(v, e)
                    break
        if v is None:
            v = UNDEF
            if path[0][0] == "H":                                # a value handed over where a reference is expected is its own referent
                v = path[0][1] if path[0][1].op in ("tuple", "agg") else mk("deref", path[0][1])
            for e in path[1:]:
                v = self.project(v, e)
        if ext and d:
            n = len(path)
            ex = [p for p in d if len(p) > n and p[:n] == path]
            if ex:
                ex.sort(key=len)
                for p in ex:
                    v = self.update(v, p[n:], d[p])
        return self.under(v, st.g)

    def write(self, st, path, v, event=True, span=None):
        d = st.m.setdefault(path[0], {})
        if path[0][0] == "H" and event and not self.muted:
            old = self.read(st, path)
            if old is not v:
                self.emit(kind="write", name=path[-1][1] if len(path) > 1 and path[-1][0] == "f" else "*", path=path,
                          args=(v,), old=old, guard=st.g, span=span)
        n = len(path)
        for p in [p for p in d if len(p) > n and p[:n] == path]:
            del d[p]
        d[path] = v

    def write_multi(self, st, places, v, span=None):
        if len(places) == 1:
            self.write(st, places[0][1], v, span=span)
            return
        for g, p in places:
            old = self.read(st, p)
            gg = self.b.and_(g, st.g)
            self.write(st, p, self.phi([(gg, v), (self.b.and_(st.g, self.b.not_(g)), old)]), span=span)

    def emit(self, **k):
        if self.muted:
            return
        k["seq"] = len(self.events)
        k["stack"] = tuple(self.stack)
        k["loop"] = self.loopdepth
        self.events.append(Event(**k))

    def resolve(self, st, fid, pl):
        cur = [(1, (("L", fid, pl["l"]),))]
        for e in pl["p"]:
            k = e["k"]
            if k == "deref":
                nxt = []
                for g, p in cur:
                    v = self.read(st, p)
                    for g2, w in self.leaves(v, g):
                        if self.b.and_(g2, st.g) == 0:
                            continue
                        if w.op == "ref":
                            nxt.append((g2, w.a[0]))
                        else:
                            nxt.append((g2, (("H", w),)))
                m = {}
                for g, p in nxt:
                    m[p] = self.b.or_(m.get(p, 0), g)
                cur = [(g, p) for p, g in m.items()] or [(1, (("H", UNDEF),))]
                continue
            if k == "field":
                el = ("f", e["n"])
            elif k == "downcast":
                el = ("v", e["v"])
            elif k == "index":
                el = ("i", self.read(st, (("L", fid, e["l"]),)))
            elif k == "cindex":
                el = ("i", INT(e["o"] if not e["e"] else -e["o"]))
            elif k == "subslice":
                el = ("s", f"{e['f']}..{e['t']}")
            else:
                continue
            nxt = []
            for g, p in cur:
                if el[0] == "i" and el[1].op == "phi":
                    for g2, w in self.leaves(el[1], g):
                        nxt.append((g2, p + (("i", w),)))
                else:
                    nxt.append((g, p + (el,)))
            cur = nxt
        return cur

    def read_place(self, st, fid, pl):
        ps = self.resolve(st, fid, pl)
        if len(ps) == 1:
            v = self.read(st, ps[0][1])
        else:
            v = self.phi([(g, self.read(st, p)) for g, p in ps])
            v = self.under(v, st.g)
        return self.typed(v, pl.get("t", ""))

    def typed(self, v, t):
        if self.spec and v.op not in ("agg", "phi", "ref", "undef", "bottom") and t.split("::")[-1] == "MegaSpecId" and "mega_evm" in t:
            return self.spec_val(t)
        if self.spec and v.op == "deref" or v.op in ("field", "call", "arg"):
            if base_ty(t).split("::")[-1] == "MegaSpecId" and not t.startswith("&") and self.spec:
                return self.spec_val(base_ty(t))
        return v

    def spec_val(self, t):
        self.spec_used = True
        return agg("mega_evm::evm::spec::MegaSpecId", self.spec, (), ())

    # ------------------------------------------------------------ operands
    def const(self, st, c, body_owner):
        ty = c["ty"]
        if c.get("ck") == "fn":
            return mk("fn", self.callee_name(c), json.dumps(c, sort_keys=True))
        if "promoted" in c and c.get("ck") not in ("int",):
            key = (c["ckey"], c["promoted"])
            fn = self.f.fns.get(c["ckey"])
            if fn is not None:
                body = fn["promoted"][c["promoted"]]
                self.fid += 1
                fid = self.fid
                self.muted += 1
                ret, st2 = self.exec_body(body, fn, [], st, fid, keep=True)
                self.muted -= 1
                if st2 is not None:
                    for r, d in st2.m.items():
                        if r[0] == "L" and r[1] == fid:
                            st.m[r] = d
                        elif r not in st.m:
                            st.m[r] = d
                return ret
        ck = c.get("ck")
        bt = strip_generics(base_ty(ty))
        if ck == "int":
            v = int(c["v"])
            if not ty.startswith("&") and bt in self.f.enums:
                d = self.f.enums.get(bt + "#d") or {}
                for nm, dv in d.items():
                    if dv == v:
                        return agg(bt, nm, (), ())
            return INT(v)
        if ck in ("mem", "refmem"):
            v = self.from_hex(c["hex"], bt, ty)
            if ck == "refmem":
                r = ("H", mk("cref", v))
                st.m.setdefault(r, {})[(r,)] = v
                return mk("ref", (r,), False)
            return v
        if ck == "slice":
            return mk("str", c.get("s") or c.get("hex") or "?")
        if ck == "zst":
            if bt in self.f.adts:
                return agg(bt, bt.split("::")[-1], (), ())
            if ty == "()":
                return UNIT
            return mk("zst", strip_generics(ty))
        if ck == "closure":
            return mk("closure", c["key"])
        if "name" in c:
            if c.get("ckey") in self.f.fns and c["ckey"] not in self.stack and self.f.fns[c["ckey"]]["kind"] != "Fn":
                fn = self.f.fns[c["ckey"]]
                if fn.get("blocks") and fn["kind"] in ("Const",) and len(self.stack) < self.maxdepth + 4:
                    self.fid += 1
                    fid = self.fid
                    self.muted += 1
                    self.stack.append(c["ckey"])
                    ret, st2 = self.exec_body(fn, fn, [], st, fid, keep=True)
                    self.stack.pop()
                    self.muted -= 1
                    if st2 is not None:
                        for r, d in st2.m.items():
                            if r not in st.m:
                                st.m[r] = d
                        return ret
            return mk("cname", c["name"], ty)
        if "cty" in c:
            return mk("cname", self.consts.get(c["cty"], c["cty"]), ty) if c["cty"] not in self.consts else self.consts[c["cty"]]
        return mk("const", ck or "?", ty, c.get("path", ""))

    def from_hex(self, hx, bt, ty):
        if "ruint::Uint" in bt or bt.endswith("::Uint"):
            return INT(int.from_bytes(bytes.fromhex(hx), "little"))
        if bt in ("u8", "u16", "u32", "u64", "u128", "usize", "bool"):
            return INT(int.from_bytes(bytes.fromhex(hx), "little"))
        if bt in ("i8", "i16", "i32", "i64", "i128", "isize"):
            return INT(int.from_bytes(bytes.fromhex(hx), "little", signed=True))
        if bt in self.f.enums and len(hx) <= 16:
            d = self.f.enums.get(bt + "#d") or {}
            v = int.from_bytes(bytes.fromhex(hx), "little")
            for nm, dv in d.items():
                if dv == v:
                    return agg(bt, nm, (), ())
        if "InternalBitFlags" in bt or (bt in self.f.adts and len(hx) <= 8):
            return mk("hex", hx, bt)
        return mk("hex", hx, bt)

    def operand(self, st, fid, o, owner):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read_place(st, fid, o["p"])
        if k == "const":
            return self.const(st, o, owner)
        return mk("runtime")

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, op, a, b, ty):
        B = self.b
        wo = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in self.CMP:
            if op == "Eq":
                r = self.eq(a, b)
            elif op == "Ne":
                r = B.not_(self.eq(a, b))
            elif op == "Lt":
                r = self.lt(a, b, ty)
            elif op == "Gt":
                r = self.lt(b, a, ty)
            elif op == "Le":
                r = B.not_(self.lt(b, a, ty))
            else:
                r = B.not_(self.lt(a, b, ty))
            return self.B(r)
        if op == "Add":
            r = self.add(a, b)
        elif op == "Sub":
            r = self.add(a, b, -1)
        elif op == "Mul":
            r = self.mul(a, b)
        elif ty == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.to_bdd(a), self.to_bdd(b)
            r = self.B(B.and_(x, y) if op == "BitAnd" else B.or_(x, y) if op == "BitOr" else B.ite(x, B.not_(y), y))
        else:
            def f(x, y):
                if x.op == "int" and y.op == "int":
                    p, q = x.a[0], y.a[0]
                    try:
                        return INT({"BitAnd": lambda: p & q, "BitOr": lambda: p | q, "BitXor": lambda: p ^ q,
                                    "Div": lambda: p // q, "Rem": lambda: p % q, "Shl": lambda: p << q,
                                    "Shr": lambda: p >> q}[op]())
                    except (KeyError, ZeroDivisionError):
                        pass
                if op in ("BitAnd", "BitOr", "BitXor"):
                    return bits(op, x, y)
                if op == "Shr" and y.op == "int":
                    return mk("bin", "Div", x, INT(1 << y.a[0]))
                return mk("bin", op, x, y)
            r = self.dist(f, a, b)
            if r is None:
                r = mk("bin", op, a, b)
        return mk("tuple", r, INT(0)) if wo else r

    def rvalue(self, st, fid, r, owner):
        k = r["k"]
        if k == "use":
            return self.operand(st, fid, r["o"], owner)
        if k == "ref":
            ps = self.resolve(st, fid, r["p"])
            if len(ps) == 1:
                return mk("ref", ps[0][1], r["m"])
            return self.phi([(g, mk("ref", p, r["m"])) for g, p in ps])
        if k == "bin":
            return self.binop(r["op"], self.operand(st, fid, r["a"], owner), self.operand(st, fid, r["b"], owner), r["ty"])
        if k == "un":
            v = self.operand(st, fid, r["o"], owner)
            if r["op"] == "Not":
                if r["ty"] == "bool":
                    return self.B(self.b.not_(self.to_bdd(v)))
                return self.dist(lambda x: mk("un", "Not", x), v)
            if r["op"] == "Neg":
                return self.add(INT(0), v, -1)
            if r["op"] == "PtrMetadata":
                return self.length(st, v)
            return mk("un", r["op"], v)
        if k == "cast":
            v = self.operand(st, fid, r["o"], owner)
            if r["ck"].startswith("coerce") or r["ck"] in ("PtrToPtr",):
                return v
            if r["ck"] == "IntToInt":
                if v.op == "bdd":
                    return self.phi([(v.a[0], INT(1)), (self.b.not_(v.a[0]), INT(0))])
                if v.op == "discr" or v.op == "agg":
                    dv = self.discr_val(v)
                    return INT(dv) if dv is not None else v
                bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32,
                        "i64": 64, "isize": 64, "i128": 128}
                to, fr = bits.get(r["ty"]), bits.get(r["from"])
                if v.op == "int" and to:
                    return INT(v.a[0] & ((1 << to) - 1)) if r["ty"][0] == "u" else v
                if to and fr and to < fr:
                    return mk("cast", r["ty"], v)
                return v
            return v
        if k == "discr":
            v = self.read_place(st, fid, r["p"])

            def f(x):
                if x.op == "agg":
                    d = self.f.enums.get(strip_generics(x.a[0]) + "#d")
                    if strip_generics(x.a[0]) in TWO:
                        d = {n: i for i, n in enumerate(TWO[strip_generics(x.a[0])])}
                    if d and x.a[1] in d:
                        return INT(d[x.a[1]])
                return mk("discr", x, strip_generics(r["of"]))
            return self.dist(f, v) or mk("discr", v, strip_generics(r["of"]))
        if k == "agg":
            vals = [self.operand(st, fid, o, owner) for o in r["o"]]
            ak = r["ak"]
            if ak == "tuple":
                return mk("tuple", *vals)
            if ak == "array":
                return mk("array", *vals)
            if ak == "adt":
                v = self.rebuilt(st, fid, r, vals)
                return v if v is not None else agg(strip_generics(r["adt"]), r["variant"], tuple(r["fields"]), vals)
            if ak == "closure":
                return mk("closure", r["key"], *vals)
            return mk("aggx", ak, *vals)
        if k == "repeat":
            v = self.operand(st, fid, r["o"], owner)
            return mk("repeat", v, r["n"])
        return mk("rv", r.get("s", k))

    def rebuilt(self, st, fid, r, vals):
        """A struct put together from the fields of another value of its type is that value with the other fields replaced."""
        if r.get("enum"):
            return None
        base, same = None, set()
        for n, o in zip(r["fields"], r["o"]):
            ps = o["p"]["p"] if o["k"] in ("move", "copy") else ()
            if ps and ps[-1]["k"] == "field" and ps[-1]["n"] == n and strip_generics(ps[-1].get("of") or "") == strip_generics(r["adt"]):
                b = json.dumps([o["p"]["l"], ps[:-1]])
                if base is not None and b != base[0]:
                    return None
                base = (b, {"l": o["p"]["l"], "p": ps[:-1], "t": r["adt"]})
                same.add(n)
        if base is None:
            return None
        v = self.read_place(st, fid, base[1])
        for n, x in zip(r["fields"], vals):
            if n not in same:
                v = self.update(v, (("f", n),), x)
        return v

    def length(self, st, v):
        def f(x):
            if x.op == "ref":
                x = self.read(st, x.a[0])
            if x.op == "array":
                return INT(len(x.a))
            return mk("call", "len", x)
        return self.dist(f, v) or mk("call", "len", v)

    # ------------------------------------------------------------ control flow
    def cfg(self, body):
        c = body.get("_cfg")
        if c:
            return c
        bl = body["blocks"]
        succ = []
        for b in bl:
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["vs"]] + [t["e"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            succ.append(s)
        # blocks that can reach a return
        pred = [[] for _ in bl]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        good = set()
        wl = [i for i, b in enumerate(bl) if b["t"]["k"] == "return" or b["t"]["k"] == "call" and b["t"]["t"] is None
              and b["t"]["f"].get("path") == "std::process::exit"]
        while wl:
            x = wl.pop()
            if x in good:
                continue
            good.add(x)
            wl += pred[x]
        # reverse postorder
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        pos = {n: i for i, n in enumerate(order)}
        loops = {}
        for n in order:
            for m in succ[n]:
                if m in pos and pos[m] <= pos[n]:
                    # natural loop of back edge n->m
                    s = {m}
                    wl = [n]
                    while wl:
                        x = wl.pop()
                        if x in s or x not in pos:
                            continue
                        s.add(x)
                        wl += pred[x]
                    loops.setdefault(m, set()).update(s)
        c = (succ, good, order, loops)
        body["_cfg"] = c
        return c

    def exec_body(self, body, owner, args, st, fid, keep=False):
        succ, good, order, loops = self.cfg(body)
        st = st.copy()
        for i, v in enumerate(args):
            self.write(st, (("L", fid, i + 1),), v, event=False)
        rets = []
        self.run(body, owner, fid, order, 0, st, loops, good, rets)
        if not rets:
            return UNDEF, None
        if len(rets) == 1:
            out = rets[0]
        else:
            out = self.merge(rets)
        ret = self.read(out, (("L", fid, 0),)) if ("L", fid, 0) in out.m else UNIT
        if not keep:
            for r in [r for r in out.m if r[0] == "L" and r[1] == fid]:
                del out.m[r]
        return ret, out

    def run(self, body, owner, fid, order, entry, st, loops, good, rets, region=None, in_loop=False):
        """Process `region` (default all) in RPO from entry. Returns states leaving the region and at back edges."""
        inc = {entry: [st]}
        leaving = []      # (target, state)
        back = []
        done_loop = set()
        blocks = body["blocks"]
        started = False
        for n in order:
            if region is not None and n not in region:
                continue
            if n == entry:
                started = True
            if not started or n not in inc or n in done_loop:
                continue
            ss = [s for s in inc.pop(n) if s.g]
            if not ss:
                continue
            s = ss[0] if len(ss) == 1 else self.merge(ss)
            if n in loops and not (in_loop and n == entry):
                lb = loops[n]
                outs = self.loop(body, owner, fid, order, n, s, loops, good, rets, lb)
                done_loop |= lb
                for t, s2 in outs:
                    if region is not None and t not in region:
                        leaving.append((t, s2))
                    else:
                        inc.setdefault(t, []).append(s2)
                continue
            for t, s2 in self.block(body, owner, fid, n, s, good, rets):
                if in_loop and t == entry:
                    back.append(s2)
                elif region is not None and t not in region:
                    leaving.append((t, s2))
                else:
                    inc.setdefault(t, []).append(s2)
        return leaving, back

    def loop(self, body, owner, fid, order, h, st, loops, good, rets, region):
        def step(s, lrets):
            leaving, back = self.run(body, owner, fid, order, h, s, loops, good, lrets, region, True)
            return [(t, x) for t, x in leaving if t in good], back
        return self.iterate(st, step, rets)

    def subst(self, v, mp, memo):
        """v with some nodes replaced."""
        r = memo.get(v)
        if r is not None:
            return r
        if v in mp:
            r = mp[v]
        elif not any(occurs_deep(self.b, x, v) for x in mp):
            r = v
        elif v.op == "bdd":
            r = self.B(self.gsub(v.a[0], mp, memo))
        elif v.op == "phi":
            r = self.phi([(self.gsub(g, mp, memo), self.subst(w, mp, memo)) for g, w in v.a[0]])
        elif v.op == "lin":
            r = INT(v.a[0])
            for x, c in v.a[1]:
                r = self.add(r, self.mul(self.subst(x, mp, memo), INT(c)))
        elif v.op == "sum":
            r = mk("sum", tuple(sorted(((self.gsub(g, mp, memo), self.subst(w, mp, memo)) for g, w in v.a[0]), key=lambda t: t[1].id)))
        else:
            f = lambda x: self.subst(x, mp, memo) if isinstance(x, N) else tuple(map(f, x)) if isinstance(x, tuple) else x
            a = tuple(map(f, v.a))
            if v.op in ("field", "as") and a[0].op in ("tuple", "agg", "with", "phi"):
                r = self.project(a[0], ("f" if v.op == "field" else "v", a[1]))
            elif v.op == "deref" and a[0].op in ("tuple", "agg"):
                r = a[0]
            else:
                r = mk(v.op, *a)
        memo[v] = r
        return r

    def gsub(self, g, mp, memo):
        b = self.b
        if g <= 1:
            return g
        k = ("g", g)
        if k not in memo:
            i, lo, hi = b.nodes[g]
            a = b.atoms[i]
            t = self.subst(a, mp, memo)
            if t is a:
                c = b.var(a)
            elif t.op == "eq":
                c = self.eq(*t.a)
            elif t.op == "lt":
                c = self.lt(*t.a)
            elif t.op == "is" and t.a[0].op in ("agg", "phi"):
                c = self.is_variant(t.a[0], "", t.a[1])
            else:
                c = self.to_bdd(t)
            memo[k] = b.ite(c, self.gsub(hi, mp, memo), self.gsub(lo, mp, memo))
        return memo[k]

    def first(self, src, hit):
        """(guard that some element satisfies `hit`, replacement of the generic element by the first such element)."""
        b = self.b
        h = b.var(mk("hasnext", src))
        hit = b.restrict(hit, mk("hasnext", src), True)
        w = mk("bdd", hit)
        return b.var(mk("any", mk("bdd", b.and_(h, hit)))), {mk("elem", src): mk("first", src, w), mk("idx", src): mk("pos", src, w)}

    def search(self, st0, live, lrets, es, evs):
        """A loop that changes nothing until it leaves at some element leaves at the first such element."""
        b = self.b
        if len(es) != 1:
            return live
        src = next(iter(es)).a[0]
        h = mk("hasnext", src)
        early = lambda s: b.and_(s.g, b.not_(b.var(h))) == 0
        hits = [s for s in [x for _, x in live] + lrets if early(s)]
        if not hits or any(not early(s) and b.and_(s.g, b.var(h)) for s in [x for _, x in live] + lrets):
            return live
        anyhit = b.any_(s.g for s in hits)
        if any(b.and_(e.guard, b.not_(anyhit)) for e in evs):
            return live                                   # does something at other elements too
        hit = b.restrict(b.simplify(anyhit, st0.g), h, True)
        ex, mp = self.first(src, hit)
        memo = {}
        sub = lambda x: self.subst(x, mp, memo) if isinstance(x, N) else tuple(map(sub, x)) if isinstance(x, tuple) else x

        def guard(g):
            g = b.simplify(b.restrict(g, h, True), b.and_(hit, st0.g))
            return b.all_([st0.g, ex, self.gsub(g, mp, memo)])

        def leave(s):
            if not early(s):
                return State(b.and_(b.restrict(s.g, h, False), b.not_(ex)), s.m)
            g = guard(s.g)
            m = {}
            for r, d in s.m.items():
                d0 = st0.m.get(r, {})
                m[sub(r)] = {sub(p): v if d0.get(p) is v else self.under(sub(v), g) for p, v in d.items()}
            return State(g, m)
        for e in evs:
            e.guard = guard(e.guard)
            e.loop = max(0, e.loop - 1)
            for k in ("args", "path", "paths", "old", "res", "muts", "raw"):
                if hasattr(e, k):
                    setattr(e, k, sub(getattr(e, k)))
        lrets[:] = [leave(s) for s in lrets]
        return [(t, leave(s)) for t, s in live]

    def iterate(self, st, step, rets):
        """Fixpoint of one loop: step(state, returns) -> (states leaving, states at the back edge).  Entries of a map reached with the
        loop's own element as key differ in every round, so they are not carried from one round to the next."""
        b, step0 = self.b, step

        def step(s, lrets):
            self.skips.append(0)
            live, back = step0(s, lrets)
            sk = self.skips.pop()
            if sk:
                back = back + [x.copy(b.and_(x.g, sk)) for _, x in live if b.and_(x.g, sk)]
                live = [(t, x.copy(b.and_(x.g, b.not_(sk)))) for t, x in live if b.and_(x.g, b.not_(sk))]
            return live, back
        self.loopn += 1
        lid = f"{self.loopn}"
        st0 = st.copy()
        cur = st.copy()
        hv = {}
        self.inloop += 1
        self.loop_elems.append(set())
        self.unroll.append(False)
        self.muted += 1
        step(st.copy(), [])
        self.muted -= 1
        if self.unroll.pop():
            # over a literal array: element by element
            self.inloop -= 1
            self.loop_elems.pop()
            self.unroll.append(True)
            out, todo = [], [cur]
            for _ in range(40):
                if not todo:
                    break
                live, todo = step(self.merge(todo) if len(todo) > 1 else todo[0], rets)
                out += live
            self.unroll.pop()
            byt = {}
            for t, x in out:
                byt.setdefault(t, []).append(x)
            return [(t, self.merge(xs) if len(xs) > 1 else xs[0]) for t, xs in byt.items()]

        def own(p):
            es = self.loop_elems[-1]
            for k, e in enumerate(p):
                if isinstance(e, tuple) and e[0] == "i" and isinstance(e[1], N) and any(occurs(x, e[1]) for x in es):
                    return p[:k + 1]
            return None
        for _ in range(4):
            self.muted += 1
            _, back = step(cur.copy(), [])
            self.muted -= 1
            changed = set()
            for bs in back:
                for r, d in bs.m.items():
                    base = cur.m.get(r, {})
                    for p, v in d.items():
                        if base.get(p) is not v and self.read(cur, p, False) is not v:
                            if r[0] == "L" and not any(q in st0.m.get(r, {}) for q in [p[:k] for k in range(1, len(p) + 1)]):
                                continue      # local of the body
                            if own(p) is None:
                                changed.add(p)
            if not changed:
                break
            for p in sorted(changed, key=len):
                init = self.read(st0, p)
                n = mk("loop", lid, len(hv), init)
                hv[p] = n
                self.write(cur, p, n, event=False)
        self.loopdepth += 1
        lrets = []
        nev = len(self.events)
        live, back = step(cur, lrets)
        self.loopdepth -= 1
        self.inloop -= 1
        each = set()
        for bs in back:
            for r, d in bs.m.items():
                for p, v in d.items():
                    q = own(p)
                    if q is not None and self.read(st0, p, False) is not v:
                        each.add(q)
        es = self.loop_elems.pop()
        if self.loop_elems:
            self.loop_elems[-1] |= es
        found = False
        if not hv and not each:
            was = live
            live = self.search(st0, live, lrets, es, self.events[nev:])
            found = live is not was
        if not found and not self.muted and any(e.kind == "call" for e in self.events[nev:]):
            # left at some element, the remaining ones untouched
            for e in es:
                g = b.any_(x.g for _, x in live if b.and_(x.g, b.not_(b.var(mk("hasnext", e.a[0])))) == 0)
                if g:
                    self.emit(kind="leave", name="", path="", guard=g, args=(e.a[0],), muts=())
        rets += lrets
        final = {}
        for p, n in hv.items():
            vb = [(s.g, self.read(s, p)) for s in back]
            init = self.read(st0, p)
            ls = []
            for g, v in vb:
                ls += self.leaves(v, g)
            ds = {}
            okd = bool(ls)
            for g, v in ls:
                d = self.add(v, n, -1)
                if occurs(n, d):
                    okd = False
                    break
                if not (d.op == "int" and d.a[0] == 0):
                    ds[d] = self.b.or_(ds.get(d, 0), g)
            if okd:
                final[p] = self.add(init, mk("sum", tuple(sorted(((g, d) for d, g in ds.items()), key=lambda t: t[1].id)))) if ds else init
            else:
                final[p] = mk("fold", n, init, self.phi(vb) if vb else init)
        every = {q: self.phi([(s.g, self.read(s, q)) for s in back]) for q in each}
        out = []
        for t, s in live:
            for p in sorted([p for p in final if self.read(s, p, False) is hv[p]], key=len):
                self.write(s, p, final[p], event=False)
            for q in sorted(every, key=len):
                if self.read(s, q) is self.read(st0, q):
                    self.write(s, q, mk("each", every[q]), event=False)
            out.append((t, s.copy(st0.g) if len(live) == 1 and not lrets else s))
        return out

    def block(self, body, owner, fid, n, st, good, rets):
        b = body["blocks"][n]
        self.nblocks += 1
        for s in b["s"]:
            if s["k"] == "assign":
                v = self.rvalue(st, fid, s["r"], owner)
                v = self.under(v, st.g)
                ps = self.resolve(st, fid, s["p"])
                self.write_multi(st, ps, v, span=s.get("sp"))
            elif s["k"] == "setdiscr":
                pass
        t = b["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["t"], st)]
        if k == "assert":
            return [(t["t"], st)]
        if k == "return":
            rets.append(st)
            return []
        if k == "switch":
            return self.switch(st, fid, t, good, owner)
        if k == "call":
            return self.call_term(body, owner, fid, t, st)
        return []

    def switch(self, st, fid, t, good, owner):
        v = self.under(self.operand(st, fid, t["o"], owner), st.g)
        b = self.b
        edges = []
        rest = 1
        for val, tgt in t["vs"]:
            if t["ty"] == "bool":
                c = self.to_bdd(v)
                c = b.not_(c) if val == "0" else c
            else:
                c = self.eq(v, INT(int(val)))
            c = b.and_(c, rest)
            rest = b.and_(rest, b.not_(c))
            edges.append((c, tgt))
        edges.append((rest, t["e"]))
        dead = 0
        live = []
        for c, tgt in edges:
            g = b.and_(st.g, c)
            if g == 0:
                continue
            if tgt in good:
                live.append((c, tgt))
            else:
                dead = b.or_(dead, g)
        if not live:
            # only diverging successors
            return [(tgt, st.copy(b.and_(st.g, c))) for c, tgt in edges if b.and_(st.g, c)]
        if dead:
            if not self.muted:
                self.emit(kind="panic", name="panic", path="", args=(), guard=dead)
        out = []
        if len(live) == 1:
            return [(live[0][1], st)]
        for i, (c, tgt) in enumerate(live):
            g = b.and_(st.g, c)
            if dead:
                # assume no panic: simplify the condition on the surviving part
                g = b.and_(st.g, b.simplify(c, b.and_(st.g, b.not_(dead))))
            out.append((tgt, st.copy(g)))
        return out

    def merge(self, ss):
        b = self.b
        g = b.any_(s.g for s in ss)
        roots = set()
        for s in ss:
            roots |= set(s.m)
        m = {}
        for r in roots:
            ds = [s.m.get(r) for s in ss]
            if r[0] == "L" and any(d is None for d in ds):
                # local not live on all branches: keep the defined ones
                pass
            first = ds[0]
            if all(d is first or d == first for d in ds) and first is not None:
                m[r] = dict(first)
                continue
            keys = set()
            for d in ds:
                if d:
                    keys |= set(d)
            out = {}
            for p in sorted(keys, key=len):
                vals = []
                for s, d in zip(ss, ds):
                    if r[0] == "L" and not d:
                        continue
                    vals.append((s.g, self.read(s, p, False)))
                v0 = vals[0][1]
                if all(v is v0 for _, v in vals):
                    out[p] = v0
                else:
                    v = self.phi(vals)
                    out[p] = self.shrink(v, g)
            m[r] = out
        return State(g, m)

    def shrink(self, v, care):
        """Simplify phi guards to the care set for a canonical, control-structure independent form."""
        if v.op == "phi":
            return self.phi([(self.b.simplify(g, care), w) for g, w in v.a[0]]) if False else v
        return v

    # ------------------------------------------------------------ calls
    def callee_name(self, c):
        if "trait" in c:
            return c["trait"].split("::")[-1].split("<")[0] + "::" + c["name"]
        if "impl_ty" in c:
            return strip_generics(c["impl_ty"]).split("::")[-1] + "::" + c["name"]
        return short(strip_generics(c["path"]))

    def call_term(self, body, owner, fid, t, st):
        fo = t["f"]
        args = [self.under(self.operand(st, fid, a, owner), st.g) for a in t["a"]]
        if fo["k"] == "const" and fo.get("ck") == "fn":
            ret, st2 = self.call(st, fo, args, t["at"], t["dt"], t.get("sp"))
        else:
            fv = self.operand(st, fid, fo, owner)
            ret, st2 = self.invoke(st, fv, args, t["at"], t["dt"], t.get("sp"), direct=True)
        if st2 is None or t["t"] is None:
            if not self.muted:
                self.emit(kind="panic", name=fo.get("path", "?"), path=fo.get("path", "?"), args=tuple(args), guard=st.g,
                          span=t.get("sp"))
            return []
        ret = self.typed(ret, t["dt"])
        ps = self.resolve(st2, fid, t["d"])
        self.write_multi(st2, ps, ret, span=t.get("sp"))
        return [(t["t"], st2)]

    def invoke(self, st, fv, args, at=None, dt="", span=None, direct=False):
        """Call a function value."""
        at = at or ["?"] * len(args)
        if fv.op == "phi":
            outs, rv = [], []
            for g, w in self.leaves(fv, st.g):
                r, s2 = self.invoke(st.copy(g), w, args, at, dt, span, direct)
                if s2 is not None:
                    outs.append(s2)
                    rv.append((s2.g, r))
            if not outs:
                return UNDEF, None
            return self.phi(rv), (outs[0] if len(outs) == 1 else self.merge(outs))
        if fv.op == "ref":
            return self.invoke(st, self.read(st, fv.a[0]), args, at, dt, span, direct)
        if fv.op == "fn":
            return self.call(st, json.loads(fv.a[1]), args, at, dt, span)
        if fv.op == "closure":
            fn = self.f.fns.get(fv.a[0])
            if fn is not None and len(self.stack) < self.maxdepth + 6:
                self.fid += 1
                fid = self.fid
                t1 = fn["locals"][1] if len(fn["locals"]) > 1 else ""
                if t1.startswith("&"):
                    r = ("L", fid, -1)
                    st = st.copy()
                    st.m[r] = {(r,): fv}
                    env = mk("ref", (r,), True)
                else:
                    env = fv
                self.stack.append(fn["key"])
                self.inlined.add(fn["key"])
                ret, st2 = self.exec_body(fn, fn, [env] + args, st, fid)
                self.stack.pop()
                return ret, st2
        vals, st2 = self.opaque_args(st, "call*", [fv] + args, ["?"] + at, dt)
        res = mk("call", "call*", *vals)
        self.emit(kind="call", name="call*", path="call*", args=tuple(vals), guard=st.g, span=span, res=res,
                  muts=self.last_muts, at=tuple(["?"] + at), dt=dt)
        return res, st2

    def target(self, st, v, ty):
        """Path a reference value points to (single)."""
        if v.op == "ref":
            return v.a[0]
        return (("H", v),)

    def deref_val(self, st, v):
        def f(x):
            if x.op == "ref":
                return self.read(st, x.a[0])
            return self.read(st, (("H", x),))
        if v.op == "phi":
            return self.phi([(g, f(w)) for g, w in v.a[0]])
        return f(v)

    def peel(self, st, v, ty):
        """Value behind all the references of type ty."""
        t = ty.strip()
        while t.startswith("&"):
            v = self.deref_val(st, v)
            t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        return v

    def opaque_result(self, name, vals, dt):
        """Result of an opaque call; distributed over small phi arguments so that atoms stay phi-free."""
        if dt == "()":
            return UNIT
        n = 1
        for v in vals:
            n *= len(v.a[0]) if v.op == "phi" else 1
        if 1 < n <= 8:
            return self.dist(lambda *a: self.typed(mk("call", name, *a), dt), *vals)
        return self.typed(mk("call", name, *vals), dt)

    def root(self, v):
        """The object (heap path) of which v is some version, or None."""
        r = self.rootmemo.get(v)
        if r is None:
            r = self.rootmemo[v] = (self._root(v),)
        return r[0]

    def _root(self, v):
        o = v.op
        if o in ("deref", "cref"):
            return v
        if o in ("field", "as", "index"):
            b = self.root(v.a[0])
            return None if b is None else (v if b is v.a[0] else mk(o, b, *v.a[1:]))
        if o == "post":
            return self.root(v.a[1])
        if o == "with":
            return self.root(v.a[0])
        if o == "obj":
            return v.a[0]
        if o == "phi":
            rs = {self.root(w) for _, w in v.a[0]}
            return rs.pop() if len(rs) == 1 else None
        return None

    def objv(self, v, d=0):
        """Fold a modified or merged version of a long-lived object into one opaque version node."""
        if v.op in ("phi", "with", "field", "as", "index"):
            b = self.root(v)
            if b is not None and b is not v:
                return mk("obj", b, v)
        if v.op == "agg" and d < 3:
            return agg(v.a[0], v.a[1], v.a[2], [self.objv(x, d + 1) for x in v.a[3:]])
        if v.op == "tuple" and d < 3:
            return mk("tuple", *[self.objv(x, d + 1) for x in v.a])
        return v

    def lam(self, st, v):
        """Summary of a closure handed to an opaque function: its result over symbolic arguments."""
        fn = self.f.fns.get(v.a[0])
        if fn is None or v.a[0] in self.stack or len(self.stack) > self.maxdepth + 4:
            return v
        args = [mk("arg", f"λ{i}") for i in range(fn["argc"] - 1)]
        self.loopdepth += 1
        r, s2 = self.invoke(st.copy(), v, args)
        self.loopdepth -= 1
        return mk("lam", self.snapshot(s2 if s2 is not None else st, r))

    def lams(self, st, v, d=0):
        """Closures inside a value replaced by their summaries."""
        if not isinstance(v, N) or d > 5:
            return v
        if v.op == "closure":
            return self.lam(st, v)
        if v.op in ("agg", "tuple", "array", "it") and has_closure(v):
            xs = [self.lams(st, x, d + 1) for x in v.a]
            return agg(*xs[:3], xs[3:]) if v.op == "agg" else mk(v.op, *xs)
        return v

    def opaque_args(self, st, name, args, at, dt):
        vals = []
        muts = []
        orig = args
        args = [self.lams(st, v) for v in args]
        for i, (v, t) in enumerate(zip(args, at)):
            if t.startswith("&") or v.op == "ref":
                x = v
                ps = []
                for g, w in self.leaves(v):
                    ps.append((g, w.a[0] if w.op == "ref" else (("H", w),)))
                val = self.phi([(g, self.read(st, p)) for g, p in ps]) if len(ps) > 1 else self.read(st, ps[0][1])
                # references inside references: look through
                vals.append(self.snapshot(st, val))
                if t.startswith("&mut") or re.match(r"^&'\w+ mut", t):
                    muts.append((i, ps, t))
            else:
                vals.append(self.snapshot(st, v))
                for p in self.inner_muts(orig[i]):
                    muts.append((i, [(1, p)], t))
        pre = self.raw_vals = [] if name in PURE_MUT else [(p, self.snapshot(st, self.read(st, p)), g) for _, ps, _t in muts for g, p in ps]
        vals = [self.objv(v) for v in vals]
        self.last_muts = tuple(p for _, ps, _t in muts for _g, p in ps)
        if name in PURE_MUT:
            self.last_muts = ()
            return vals, st
        if muts and not re.match(r"^(std::option::Option<)?&('\w+ )?mut", dt):
            st = st.copy()
            for i, ps, t in muts:
                for g, p in ps:
                    post = mk("post" if p[0][0] == "H" else "upd", name, self.read(st, p), *vals)
                    if len(ps) > 1:
                        post = self.phi([(g, post), (self.b.not_(g), self.read(st, p))])
                    self.write(st, p, post, event=False)
                if CTX_TY.search(t):
                    for r in list(st.m):
                        if r[0] == "H" and r[1].op == "field" and r[1].a[1] in FROZEN_RC:
                            v = self.read(st, (r,))
                            pre.append(((r,), v, 1))
                            st.m[r] = {(r,): mk("post", name, v, *vals)}
        return vals, st

    def snapshot(self, st, v, d=0):
        """Replace refs inside values by the values they point to (for opaque call arguments)."""
        if d > 3:
            return v
        if v.op == "ref":
            return self.snapshot(st, self.read(st, v.a[0]), d + 1)
        if v.op == "phi":
            return self.phi([(g, self.snapshot(st, w, d + 1)) for g, w in v.a[0]])
        if v.op == "tuple" and any(isinstance(x, N) and x.op == "ref" for x in v.a):
            return mk("tuple", *[self.snapshot(st, x, d + 1) for x in v.a])
        if v.op == "agg" and any(isinstance(x, N) and x.op == "ref" for x in v.a[3:]):
            return agg(v.a[0], v.a[1], v.a[2], [self.snapshot(st, x, d + 1) for x in v.a[3:]])
        return v

    def inner_muts(self, v, d=0):
        out = []
        if d > 3:
            return out
        if v.op == "ref":
            if v.a[1]:
                out.append(v.a[0])
        elif v.op in ("agg", "tuple", "closure", "array"):
            for x in v.a:
                if isinstance(x, N):
                    out += self.inner_muts(x, d + 1)
        return out

    def call(self, st, fo, args, at, dt, span):
        c = fo.get("ctor")
        if c:
            return agg(strip_generics(c["adt"]), c["variant"], tuple(c["fields"]), args), st
        if fo.get("trait") in FORWARDED and fo.get("self_ty", "").startswith("&") and args and at[0].startswith("&"):
            inner = re.sub(r"^&('\w+ )?(mut )?", "", fo["self_ty"])
            key = self.devirt_key(fo["trait"], fo["name"], strip_generics(inner).split("::")[-1]) if "mega_evm::" in strip_generics(inner) else None
            if key is not None:
                fo = dict(fo, self_ty=inner, self_adt=strip_generics(inner), res={"kind": "item", "key": key, "local": True, "args": [], "path": fo["path"]})
                out = [(g, self.read(st, w.a[0]) if w.op == "ref" else w) for g, w in self.leaves(args[0])]
                return self.call(st, fo, [self.phi(out)] + list(args[1:]), ["&" + inner] + list(at[1:]), dt, span)
        name = self.callee_name(fo)
        from models import MODELS, FNMODELS
        res = fo.get("res")
        key = None
        if res and res["kind"] == "item":
            key = res["key"]
        elif not res or res["kind"] == "virtual":
            tr = fo.get("trait", "")
            if tr in self.devirt:
                key = self.devirt_key(tr, fo["name"], self.devirt[tr])
            elif tr in self.inline_default and fo["key"] in self.f.fns:
                key = fo["key"]
        if name in self.noinline:
            key = None
        if key is not None and self.boundary is not None and key in self.f.fns and self.boundary(self.f.fns[key]):
            name = self.with_consts(self.fn_label(self.f.fns[key]), fo)
            self.opaque[name] = self.opaque.get(name, 0) + 1
            vals, st2 = self.opaque_args(st, name, args, at, dt)
            raw = self.raw_vals
            resv = self.under(self.opaque_result(name, vals, dt), st.g)
            paths = tuple(w.a[0] if w.op == "ref" else None for w in args)
            self.emit(kind="call", name=name, path=fo["path"], args=tuple(vals), paths=paths, guard=st.g, span=span, res=resv,
                      gen=tuple(fo.get("args", ())), muts=self.last_muts, at=tuple(at), dt=dt, raw=raw)
            return resv, st2
        m = FNMODELS.get(fo["path"]) or ((MODELS.get(name) or MODELS.get(name.split("::<")[0])) if key not in self.f.fns else None)
        if m is not None:
            r = m(self, st, fo, args, at, dt, span)
            if r is not None:
                return r
        if key is not None and key in self.f.fns and key not in self.stack and len(self.stack) < self.maxdepth:
            fn = self.f.fns[key]
            if fn["kind"] in ("Fn", "AssocFn"):
                self.fid += 1
                fid = self.fid
                self.stack.append(key)
                self.inlined.add(key)
                saved = dict(self.consts)
                gens = fn.get("generics", [])
                if key == (res or {}).get("key"):
                    pairs = zip(gens, res["args"])
                else:
                    pairs = zip(reversed(gens), reversed(fo.get("args", [])))    # trait method: its own parameters come last
                for gname, gval in pairs:
                    v = const_arg(gval)
                    if v is not None:
                        self.consts[gname] = v
                    elif gval in saved:
                        self.consts[gname] = saved[gval]
                    elif gname in self.f.cparams:
                        self.consts[gname] = mk("cname", gval, "const")
                ret, st2 = self.exec_body(fn, fn, args, st, fid)
                self.consts = saved
                self.stack.pop()
                return ret, st2
        name0, name = name, self.with_consts(self.with_self(name, fo), fo)
        # closure bodies called through Fn traits
        if name0 in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            tup = args[1]
            a2 = list(tup.a) if tup.op == "tuple" else [tup]
            return self.invoke(st, args[0], a2, None, dt, span)
        # accessor returning a reference into its only argument
        if len(args) == 1 and dt.startswith("&") and at and at[0].startswith("&"):
            ps = self.leaves(args[0])
            nm = re.sub(r"_(mut|ref)$", "", fo["name"])
            out = []
            for g, w in ps:
                p = w.a[0] if w.op == "ref" else (("H", w),)
                out.append((g, mk("ref", p + (("f", nm),), "mut" in dt[:12])))
            self.opaque[name] = self.opaque.get(name, 0) + 1
            return self.phi(out), st
        self.opaque[name] = self.opaque.get(name, 0) + 1
        vals, st2 = self.opaque_args(st, name, args, at, dt)
        raw = self.raw_vals
        resv = self.under(self.opaque_result(name, vals, dt), st.g)
        paths = tuple(w.a[0] if w.op == "ref" else None for w in args)
        self.emit(kind="call", name=name, path=fo["path"], args=tuple(vals), paths=paths, guard=st.g, span=span, res=resv,
                  gen=tuple(fo.get("args", ())), muts=self.last_muts, at=tuple(at), dt=dt, raw=raw)
        return resv, st2

    def with_self(self, name, fo):
        """Static trait calls on this project's types carry the type: <keylessDeployCall as SolCall>::abi_decode."""
        t = strip_generics(fo.get("self_adt") or "")
        if "trait" in fo and t.startswith("mega_"):
            return t.split("::")[-1] + "::" + fo["name"]
        return name

    def with_consts(self, name, fo):
        """Const generic arguments are part of what an opaque call does."""
        if re.search(r"::(Uint|Signed|FixedBytes|Bits)$", strip_generics(fo.get("impl_ty", ""))):
            return name
        out = []
        for a in (fo.get("res") or fo).get("args", ()):
            v = const_arg(a)
            if v is None and a in self.consts:
                v = self.consts[a]
            if v is not None:
                out.append(str(v.a[0]))
            elif a in self.f.cparams:
                out.append(a)
        return f"{name}::<{','.join(out)}>" if out else name

    def fn_label(self, fn):
        n = getattr(self.f, "renamed", {}).get(fn["key"], fn["name"])
        if fn.get("impl_ty"):
            return strip_generics(fn["impl_ty"]).split("::")[-1] + "::" + n
        return n

    def devirt_key(self, trait, name, ty):
        for im in self.f.impls:
            if im["trait"] == trait and strip_generics(im["self"]).split("::")[-1] == ty and not im["selfstr"].startswith("&"):
                for n, k in im["items"]:
                    if n == name:
                        return k
        return None

    # ------------------------------------------------------------ entry
    def analyse(self, fn, args=None):
        self.fid += 1
        fid = self.fid
        st = State(1, {})
        names = {}
        for nm, pl in fn["names"]:
            if not pl["p"] and 1 <= pl["l"] <= fn["argc"]:
                names[pl["l"]] = nm
        vals = []
        for i in range(1, fn["argc"] + 1):
            if args and i - 1 < len(args) and args[i - 1] is not None:
                vals.append(args[i - 1])
                continue
            v = mk("arg", "self" if names.get(i) == "self" else f"a{i - 1}" if names.get(1) == "self" else f"a{i}")
            vals.append(self.typed(v, fn["locals"][i]))
        self.stack.append(fn["key"])
        self.inlined.add(fn["key"])
        ret, out = self.exec_body(fn, fn, vals, st, fid)
        self.stack.pop()
        self.ret = ret
        self.out = out
        return ret, out
