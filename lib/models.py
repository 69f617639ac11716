"""Models of the std / alloc / revm functions whose meaning the analysis needs (everything else is opaque)."""
import re
from engine import *

MODELS = {}
FNMODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def sub(A, st, cond, f):
    """Run f on the state restricted to cond; returns (value, state)."""
    g = A.b.and_(st.g, cond)
    if g == 0:
        return None
    r, s = f(st.copy(g))
    if s is None:
        return None
    return s, r


def branch(A, st, cond, ft, ff):
    outs = [x for x in (sub(A, st, cond, ft), sub(A, st, A.b.not_(cond), ff)) if x is not None]
    if not outs:
        return UNDEF, None
    if len(outs) == 1:
        return outs[0][1], outs[0][0]
    v = A.phi([(s.g, r) for s, r in outs])
    return v, A.merge([s for s, _ in outs])


def payload(A, v, variant, name="0"):
    return A.project(A.project(v, ("v", variant)), ("f", name))


def isv(A, v, ty, variant):
    adt = OPT if variant in ("Some", "None") else RES
    return A.is_variant(v, adt, variant)


# ---------------------------------------------------------------- identity-like
@model("Clone::clone", "ToOwned::to_owned", "Borrow::borrow", "BorrowMut::borrow_mut", "Cow::into_owned")
def clone(A, st, fo, args, at, dt, span):
    if fo["name"] in ("borrow", "borrow_mut") and dt.startswith("&"):
        return args[0], st
    return A.typed(A.under(A.deref_val(st, args[0]), st.g), dt), st


@model("Clone::clone_from")
def clone_from(A, st, fo, args, at, dt, span):
    st = st.copy()
    A.write(st, A.target(st, args[0], at[0]), A.deref_val(st, args[1]), span=span)
    return UNIT, st


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from", "Uint::to", "Uint::from", "Uint::saturating_to",
       "UintTryTo::uint_try_to", "IntoIterator::into_iter", "AsRef::as_ref", "AsMut::as_mut", "Uint::wrapping_to")
def conv(A, st, fo, args, at, dt, span):
    v = args[0]
    num = re.compile(r"^(u8|u16|u32|u64|u128|usize|i64|.*Uint<.*)$")
    src, dst = at[0], dt
    res = fo.get("res") or {}
    if res.get("local"):
        return None
    n = fo["name"]
    if num.match(src) and n in ("to", "saturating_to", "wrapping_to", "try_into", "try_from"):
        out = re.match(r"^(?:.*::)?Result<(\w+), ", dst).group(1) if n.startswith("try") and re.match(r"^(?:.*::)?Result<(\w+), ", dst) else dst
        top = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(out)
        frm = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(src, 256)
        if top and top < frm:
            x = A.peel(st, v, src)
            big = A.lt(INT(2 ** top - 1), x, src)
            if n == "wrapping_to":
                return mk("cast", out, x), st
            if n == "saturating_to":
                return A.under(A.phi([(A.b.not_(big), x), (big, INT(2 ** top - 1))]), st.g), st
            if n == "to":
                if A.b.and_(st.g, big):
                    A.emit(kind="panic", name=A.callee_name(fo), path=fo["path"], args=(x,), guard=A.b.and_(st.g, big), span=span)
                return x, st
            return A.under(A.phi([(A.b.not_(big), ok(x)), (big, err(mk("call", "overflow", x)))]), st.g), st
    if strip_generics(src) == strip_generics(dst) or (num.match(src) and num.match(dst)):
        return v, st
    if n in ("try_into", "try_from"):
        return None
    if fo["name"] in ("to", "saturating_to", "wrapping_to", "uint_try_to"):
        x = A.peel(st, v, src)
        if fo["name"] == "to" and num.match(dst):
            return x, st
        return mk("call", fo["name"], x), st
    if fo["name"] in ("as_ref", "as_mut") and dst.startswith("&"):
        return v, st
    if fo["name"] == "into_iter":
        return mk("call", "iter", A.snapshot(st, v if v.op != "ref" else A.deref_val(st, v))), st
    if fo["name"] in ("into", "from"):
        if strip_generics(dst).endswith("revm_state::Account") and strip_generics(src).endswith("::AccountInfo"):
            return new_account(dst, info=v), st
        return mk("call", "into<" + strip_generics(dst).split("::")[-1] + ">", A.snapshot(st, v)), st
    return None


@model("Deref::deref", "DerefMut::deref_mut")
def deref(A, st, fo, args, at, dt, span):
    t = base_ty(at[0])
    b = strip_generics(t)

    def f(w):
        p = w.a[0] if w.op == "ref" else (("H", w),)
        if re.search(r"(^|::)(Ref|RefMut|Rc|Arc|Box|MutexGuard)$", b):
            v = A.read(st, p)
            out = []
            for g, x in A.leaves(v):
                out.append((g, x if x.op == "ref" else mk("ref", (("H", x),), True)))
            return A.phi(out)
        return mk("ref", p, True)
    return A.phi([(g, f(w)) for g, w in A.leaves(args[0])]), st


@model("RefCell::borrow", "RefCell::borrow_mut", "RefCell::get_mut", "Rc::as_ref", "Box::as_mut", "Box::as_ref",
       "RefCell::try_borrow_mut")
def cell(A, st, fo, args, at, dt, span):
    return args[0], st


@model("Rc::new", "Arc::new", "Box::new", "RefCell::new", "Cell::new")
def box(A, st, fo, args, at, dt, span):
    if fo["path"].endswith("RefCell::<T>::new") or "RefCell" in A.callee_name(fo):
        return args[0], st
    r = ("H", mk("call", "new", args[0]))
    st = st.copy()
    st.m[r] = {(r,): args[0]}
    return mk("ref", (r,), True), st


# ---------------------------------------------------------------- comparison and arithmetic
@model("PartialEq::eq", "PartialEq::ne")
def peq(A, st, fo, args, at, dt, span):
    r = (fo.get("res") or {}).get("key")
    a = A.peel(st, args[0], at[0])
    b = A.peel(st, args[1], at[1])
    g = A.eq(A.snapshot(st, a), A.snapshot(st, b))
    return A.B(A.b.not_(g) if fo["name"] == "ne" else g), st


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def pord(A, st, fo, args, at, dt, span):
    a = A.peel(st, args[0], at[0])
    b = A.peel(st, args[1], at[1])
    ty = base_ty(at[0])
    return A.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[fo["name"]], a, b, ty), st


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def mm(A, st, fo, args, at, dt, span):
    r = A.dist(lambda x, y: A.minmax(fo["name"], x, y), args[0], args[1])
    return (r or A.minmax(fo["name"], *args)), st


@model("Ord::clamp")
def clamp(A, st, fo, args, at, dt, span):
    return A.minmax("min", A.minmax("max", args[0], args[1]), args[2]), st


STATUS = "AccountStatus"  # revm's account flags: the one bit set of another crate that is computed with here


def flags(n, x, y):
    if n in ("sub", "remove", "difference"):
        if y.op == "int":
            return bits("BitAnd", x, INT(0xff & ~y.a[0]))
        return mk("bin", "AndNot", x, y)
    return bits({"bitand": "BitAnd", "intersection": "BitAnd", "bitxor": "BitXor", "toggle": "BitXor"}.get(n, "BitOr"), x, y)


def is_flags(at):
    return bool(at) and STATUS in at[0] and "<" not in at[0]


@model("BitOr::bitor", "BitAnd::bitand", "BitXor::bitxor", "AccountStatus::union", "AccountStatus::difference", "AccountStatus::intersection")
def flag_op(A, st, fo, args, at, dt, span):
    if not is_flags(at):
        return None
    x, y = A.peel(st, args[0], at[0]), A.peel(st, args[1], at[1])
    return A.dist(lambda p, q: flags(fo["name"], p, q), x, y) or flags(fo["name"], x, y), st


@model("BitOrAssign::bitor_assign", "BitAndAssign::bitand_assign", "AccountStatus::insert", "AccountStatus::remove")
def flag_assign(A, st, fo, args, at, dt, span):
    if not is_flags(at):
        return None
    p = A.target(st, args[0], at[0])
    x, y = A.read(st, p), A.peel(st, args[1], at[1])
    n = fo["name"].removesuffix("_assign")
    st = st.copy()
    A.write(st, p, A.dist(lambda a, b: flags(n, a, b), x, y) or flags(n, x, y), span=span)
    return UNIT, st


@model("AccountStatus::contains", "AccountStatus::intersects")
def flag_test(A, st, fo, args, at, dt, span):
    x, y = A.peel(st, args[0], at[0]), A.peel(st, args[1], at[1])

    def f(x, y):
        if y.op != "int" or y.a[0] & (y.a[0] - 1) or not y.a[0]:
            return mk("call", "AccountStatus::" + fo["name"], x, y)
        return flag_is(x, y.a[0])
    return A.dist(f, x, y) or f(x, y), st


def flag_is(x, k):
    """Whether the flag k is set in x."""
    if x.op == "int":
        return INT(int(bool(x.a[0] & k)))
    if x.op == "bin" and x.a[0] in ("BitAnd", "BitOr"):
        ks = [v.a[0] for v in x.a[1:] if v.op == "int"]
        if ks and (x.a[0] == "BitOr") == bool(ks[0] & k):
            return INT(int(x.a[0] == "BitOr"))
        rest = [v for v in x.a[1:] if v.op != "int"]
        if ks and len(rest) == 1:
            return flag_is(rest[0], k)
    return mk("call", "AccountStatus::contains", x, INT(k))


@model("Add::add", "Sub::sub", "Mul::mul")
def arith(A, st, fo, args, at, dt, span):
    a, b = A.peel(st, args[0], at[0]), A.peel(st, args[1], at[1])
    n = fo["name"]
    if (fo.get("res") or {}).get("local"):
        return None
    if is_flags(at):
        return A.dist(lambda p, q: flags(n, p, q), a, b) or flags(n, a, b), st
    return (A.add(a, b) if n == "add" else A.add(a, b, -1) if n == "sub" else A.mul(a, b)), st


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def arith_assign(A, st, fo, args, at, dt, span):
    p = A.target(st, args[0], at[0])
    a, b = A.read(st, p), A.peel(st, args[1], at[1])
    n = fo["name"]
    v = flags("sub", a, b) if is_flags(at) else A.add(a, b) if n.startswith("add") else A.add(a, b, -1) if n.startswith("sub") else A.mul(a, b)
    st = st.copy()
    A.write(st, p, v, span=span)
    return UNIT, st


def num_method(A, st, fo, args, at, dt, span):
    n = fo["name"]
    vals = [A.peel(st, a, t) for a, t in zip(args, at)]

    def f(*v):
        if all(x.op == "int" for x in v):
            x = [y.a[0] for y in v]
            if n == "saturating_add":
                return INT(min(x[0] + x[1], 2 ** 64 - 1))
            if n == "saturating_sub":
                return INT(max(x[0] - x[1], 0))
            if n == "saturating_mul":
                return INT(min(x[0] * x[1], 2 ** 64 - 1))
            z = x[0] + x[1] if n == "checked_add" else x[0] * x[1] if n == "checked_mul" else None
            if z is not None and z < 2 ** 32:
                return some(INT(z))
        if n in ("saturating_add", "saturating_mul") and re.match(r"^(u64|u128|u32|usize|.*Uint<)", at[0]):
            w, c = [], None                                # associative on unsigned integers
            for x in v:
                for y in (x.a[1:] if x.op == "call" and x.a[0] == n else (x,)):
                    if y.op == "int":
                        c = y.a[0] if c is None else min(c + y.a[0], 2 ** 64 - 1) if n == "saturating_add" else min(c * y.a[0], 2 ** 64 - 1)
                    else:
                        w.append(y)
            v = w + ([INT(c)] if c is not None and not (c == 0 and n == "saturating_add" and w) else [])
            if len(v) == 1:
                return v[0]
        if n in COMMUTE:
            v = sorted(v, key=lambda t: t.id)
        if n == "saturating_add" and any(x.op == "int" and x.a[0] == 0 for x in v):
            return [x for x in v if not (x.op == "int" and x.a[0] == 0)][0] if len(v) == 2 else v[0]
        if n == "saturating_sub" and v[1].op == "int" and v[1].a[0] == 0:
            return v[0]
        return mk("call", n, *v)
    if n == "checked_sub" and re.match(r"^&?(u64|u128|u32|usize|u8|u16|.*Uint<)", at[0]):
        c = A.lt(vals[0], vals[1], base_ty(at[0]))
        d = A.add(vals[0], vals[1], -1)
        return A.under(A.phi([(A.b.not_(c), some(d)), (c, NONE)]), st.g), st
    r = A.dist(f, *vals)
    return (r if r is not None else mk("call", n, *vals)), st


for _n in ("saturating_add", "saturating_sub", "saturating_mul", "checked_add", "checked_sub", "checked_mul",
           "wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add", "pow", "unsigned_abs", "saturating_pow",
           "checked_div", "div_ceil", "is_power_of_two", "leading_zeros", "abs"):
    for _o in ("num", "u64", "u8", "usize", "i64", "u32", "u128", "Uint"):
        MODELS[f"{_o}::{_n}"] = num_method


@model("Uint::is_zero", "FixedBytes::is_zero", "Address::is_zero")
def is_zero(A, st, fo, args, at, dt, span):
    v = A.peel(st, args[0], at[0])
    return A.B(A.eq(v, INT(0))), st


@model("Vec::is_empty", "slice::is_empty", "Bytes::is_empty", "[T]::is_empty", "HashMap::is_empty", "str::is_empty", "String::is_empty")
def is_empty(A, st, fo, args, at, dt, span):
    return A.B(A.eq(A.length(st, args[0]), INT(0))), st


@model("Vec::len", "slice::len", "Bytes::len", "[T]::len", "HashMap::len", "str::len")
def len_(A, st, fo, args, at, dt, span):
    return A.length(st, args[0]), st


@model("intrinsics::discriminant_value", "mem::discriminant")
def discr(A, st, fo, args, at, dt, span):
    v = A.deref_val(st, args[0])
    t = strip_generics(base_ty(at[0]))

    def f(x):
        if x.op == "agg":
            dv = A.discr_val(x)
            if dv is not None:
                return INT(dv)
        return mk("discr", x, t)
    return A.dist(f, v), st


# ---------------------------------------------------------------- mem
@model("mem::take", "Option::take")
def take(A, st, fo, args, at, dt, span):
    p = A.target(st, args[0], at[0])
    old = A.read(st, p)
    st = st.copy()
    t = base_ty(at[0])
    new = NONE if strip_generics(t) == OPT else INT(0) if re.match(r"^[ui]\d+$|^usize$", t) else mk("call", "default", mk("str", strip_generics(t)))
    A.write(st, p, new, span=span)
    return old, st


@model("mem::replace", "Option::replace", "Option::insert")
def replace(A, st, fo, args, at, dt, span):
    p = A.target(st, args[0], at[0])
    old = A.read(st, p)
    st = st.copy()
    v = args[1]
    if "Option" in A.callee_name(fo):
        v = some(v)
    A.write(st, p, v, span=span)
    if fo["name"] == "insert":
        return mk("ref", p + (("v", "Some"), ("f", "0")), True), st
    return old, st


@model("Option::get_or_insert", "Option::get_or_insert_with", "Option::get_or_insert_default")
def get_or_insert(A, st, fo, args, at, dt, span):
    p = A.target(st, args[0], at[0])
    old = A.read(st, p)

    def fill(s):
        if fo["name"] == "get_or_insert":
            v = args[1]
        elif fo["name"] == "get_or_insert_with":
            v, s = A.invoke(s, args[1], [], None, "", span)
        else:
            v, s = default(A, s, {}, [], [], base_ty(dt), span)
        if s is None:
            return UNDEF, None
        s = s.copy()
        A.write(s, p, some(v), span=span)
        return UNIT, s
    _, st = branch(A, st, A.is_variant(old, OPT, "Some"), lambda s: (UNIT, s), fill)
    return mk("ref", p + (("v", "Some"), ("f", "0")), True), st


@model("TxKind::to", "TxKind::into_to", "TxKind::is_create", "TxKind::is_call")
def txkind(A, st, fo, args, at, dt, span):
    n, out = fo["name"], []
    adt = strip_generics(base_ty(at[0]))
    for g, w in A.leaves(args[0]):
        byref = at[0].startswith("&")
        p = (w.a[0] if w.op == "ref" else (("H", w),)) if byref else None
        v = A.read(st, p) if byref else w
        c = A.is_variant(v, adt, "Call")
        if n == "is_call":
            out.append((g, A.B(c)))
        elif n == "is_create":
            out.append((g, A.B(A.b.not_(c))))
        else:
            x = mk("ref", p + (("v", "Call"), ("f", "0")), False) if n == "to" else payload(A, v, "Call")
            out += [(A.b.and_(g, c), some(x)), (A.b.and_(g, A.b.not_(c)), NONE)]
    return A.phi(out), st


@model("Context::with_cfg", "Context::with_tx", "Context::with_block", "Context::with_chain")
def ctx_with(A, st, fo, args, at, dt, span):
    if (fo.get("res") or {}).get("local"):
        return None
    f = ("f", fo["name"][5:])
    v = args[0]
    if fo["name"] == "with_cfg":
        js = A.project(v, ("f", "journaled_state"))
        v = A.update(v, (("f", "journaled_state"),), mk("call", "with_spec_id", js, A.project(args[1], ("f", "spec"))))
    v = A.update(v, (f,), args[1])
    return A.update(v, (("f", "error"),), ok(UNIT)), st


@model("mem::drop", "mem::forget", "hint::black_box")
def drop(A, st, fo, args, at, dt, span):
    return (args[0] if fo["name"] == "black_box" else UNIT), st


@model("Default::default")
def default(A, st, fo, args, at, dt, span):
    if (fo.get("res") or {}).get("local"):
        return None
    t = strip_generics(dt or fo.get("self_ty") or "")
    if re.match(r"^[ui](8|16|32|64|128|size)$", t) or t.endswith("::Uint"):
        return INT(0), st
    if t == "bool":
        return INT(0), st
    if t == OPT:
        return NONE, st
    if t.endswith("revm_state::Account"):
        return new_account(t), st
    return mk("call", "default", mk("str", t)), st


# ---------------------------------------------------------------- Option / Result
@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def opt_is(A, st, fo, args, at, dt, span):
    v = A.deref_val(st, args[0])
    var = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[fo["name"]]
    return A.B(isv(A, v, "", var)), st


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut")
def opt_as_ref(A, st, fo, args, at, dt, span):
    out = []
    isres = "Result" in A.callee_name(fo)
    for g, w in A.leaves(args[0]):
        p = w.a[0] if w.op == "ref" else (("H", w),)
        v = A.read(st, p)
        if isres:
            c = A.is_variant(v, RES, "Ok")
            out.append((A.b.and_(g, c), ok(mk("ref", p + (("v", "Ok"), ("f", "0")), True))))
            out.append((A.b.and_(g, A.b.not_(c)), err(mk("ref", p + (("v", "Err"), ("f", "0")), True))))
        else:
            c = A.is_variant(v, OPT, "Some")
            out.append((A.b.and_(g, c), some(mk("ref", p + (("v", "Some"), ("f", "0")), True))))
            out.append((A.b.and_(g, A.b.not_(c)), NONE))
    return A.phi(out), st


@model("Option::copied", "Option::cloned")
def opt_copied(A, st, fo, args, at, dt, span):
    v = args[0]
    c = A.is_variant(v, OPT, "Some")
    x = payload(A, v, "Some")
    if x.op == "bottom":
        return NONE, st
    return A.phi([(c, some(A.deref_val(st, x))), (A.b.not_(c), NONE)]), st


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked", "Result::unwrap_err")
def unwrap(A, st, fo, args, at, dt, span):
    isres = "Result" in A.callee_name(fo)
    var = "Err" if fo["name"] == "unwrap_err" else "Ok" if isres else "Some"
    c = isv(A, args[0], "", var)
    if A.b.and_(st.g, A.b.not_(c)):
        A.emit(kind="panic", name=A.callee_name(fo), path=fo["path"], args=(args[0],), guard=A.b.and_(st.g, A.b.not_(c)), span=span)
    return payload(A, args[0], var), st


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default",
       "Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or(A, st, fo, args, at, dt, span):
    isres = "Result" in A.callee_name(fo)
    good, bad = ("Ok", "Err") if isres else ("Some", "None")
    c = isv(A, args[0], "", good)
    n = fo["name"]

    def fb(s):
        if n == "unwrap_or":
            return args[1], s
        if n == "unwrap_or_default":
            return default(A, s, {}, [], [], dt, span)
        return A.invoke(s, args[1], [payload(A, args[0], "Err")] if isres else [], None, dt, span)
    return branch(A, st, c, lambda s: (payload(A, args[0], good), s), fb)


@model("Option::map", "Result::map", "Result::map_err", "Option::and_then", "Result::and_then", "Option::ok_or",
       "Option::ok_or_else", "Result::ok", "Result::err", "Option::filter", "Option::or", "Option::or_else", "Option::and",
       "Result::or_else", "Option::is_some_and", "Option::is_none_or", "Result::is_ok_and", "Result::is_err_and",
       "Option::map_or", "Option::map_or_else", "Result::map_or", "Option::inspect", "Result::inspect", "Result::inspect_err", "Option::xor",
       "Option::flatten", "Option::transpose", "Result::transpose", "Option::zip", "Result::and",
       "Result::map_or_else", "Result::flatten")
def comb(A, st, fo, args, at, dt, span):
    isres = "Result" in A.callee_name(fo)
    good, bad = ("Ok", "Err") if isres else ("Some", "None")
    n = fo["name"]
    v = args[0]
    c = isv(A, v, "", good)
    pg = lambda: payload(A, v, good)
    pb = lambda: payload(A, v, bad) if isres else None
    inv = lambda s, f, a: A.invoke(s, f, a, None, dt if n in ("and_then", "or_else", "map_or", "map_or_else") else "", span)

    def wrap(k):
        def g(s):
            r, s2 = k(s)
            return r, s2
        return g
    if n == "map":
        mkc = ok if isres else some

        def t(s):
            r, s2 = inv(s, args[1], [pg()])
            return mkc(r), s2
        return branch(A, st, c, t, lambda s: (err(pb()) if isres else NONE, s))
    if n == "map_err":
        def t(s):
            r, s2 = inv(s, args[1], [pb()])
            return err(r), s2
        return branch(A, st, c, lambda s: (ok(pg()), s), t)
    if n == "and_then":
        return branch(A, st, c, lambda s: inv(s, args[1], [pg()]), lambda s: (err(pb()) if isres else NONE, s))
    if n == "flatten":
        return branch(A, st, c, lambda s: (pg(), s), lambda s: (err(pb()) if isres else NONE, s))
    if n == "transpose" and not isres:                    # Option<Result<T, E>> -> Result<Option<T>, E>
        def t(s):
            w = pg()
            return branch(A, s, isv(A, w, RES, "Ok"), lambda z: (ok(some(payload(A, w, "Ok"))), z),
                          lambda z: (err(payload(A, w, "Err")), z))
        return branch(A, st, c, t, lambda s: (ok(NONE), s))
    if n == "transpose":                                  # Result<Option<T>, E> -> Option<Result<T, E>>
        def t(s):
            w = pg()
            return branch(A, s, isv(A, w, OPT, "Some"), lambda z: (some(ok(payload(A, w, "Some"))), z), lambda z: (NONE, z))
        return branch(A, st, c, t, lambda s: (some(err(pb())), s))
    if n == "zip":
        k = A.b.and_(c, isv(A, args[1], "", "Some"))
        return branch(A, st, k, lambda s: (some(mk("tuple", pg(), payload(A, args[1], "Some"))), s), lambda s: (NONE, s))
    if n == "or_else":
        return branch(A, st, c, lambda s: (v, s), lambda s: inv(s, args[1], [pb()] if isres else []))
    if n == "or":
        return branch(A, st, c, lambda s: (v, s), lambda s: (args[1], s))
    if n == "and":
        return branch(A, st, c, lambda s: (args[1], s), lambda s: (err(pb()) if isres else NONE, s))
    if n == "xor":
        k = isv(A, args[1], "", "Some")
        nk = A.b.not_(k)
        return A.phi([(A.b.and_(c, nk), v), (A.b.and_(A.b.not_(c), k), args[1]), (A.b.or_(A.b.and_(c, k), A.b.and_(A.b.not_(c), nk)), NONE)]), st
    if n == "ok_or":
        return branch(A, st, c, lambda s: (ok(pg()), s), lambda s: (err(args[1]), s))
    if n == "ok_or_else":
        def t(s):
            r, s2 = inv(s, args[1], [])
            return err(r), s2
        return branch(A, st, c, lambda s: (ok(pg()), s), t)
    if n == "ok":
        return branch(A, st, c, lambda s: (some(pg()), s), lambda s: (NONE, s))
    if n == "err":
        return branch(A, st, c, lambda s: (NONE, s), lambda s: (some(pb()), s))
    if n in ("is_some_and", "is_ok_and"):
        return branch(A, st, c, lambda s: inv(s, args[1], [pg()]), lambda s: (INT(0), s))
    if n == "is_none_or":
        return branch(A, st, c, lambda s: inv(s, args[1], [pg()]), lambda s: (INT(1), s))
    if n == "is_err_and":
        return branch(A, st, c, lambda s: (INT(0), s), lambda s: inv(s, args[1], [pb()]))
    if n == "map_or":
        return branch(A, st, c, lambda s: inv(s, args[2], [pg()]), lambda s: (args[1], s))
    if n == "map_or_else":
        return branch(A, st, c, lambda s: inv(s, args[2], [pg()]), lambda s: inv(s, args[1], [pb()] if isres else []))
    if n in ("inspect", "inspect_err"):
        x = pb() if n == "inspect_err" else pg()

        def t(s):
            r = ("H", mk("call", "tmp", x))
            s.m[r] = {(r,): x}
            _, s2 = inv(s, args[1], [mk("ref", (r,), False)])
            return v, s2
        if n == "inspect_err":
            return branch(A, st, c, lambda s: (v, s), t)
        return branch(A, st, c, t, lambda s: (v, s))
    if n == "filter":
        def t(s):
            r = ("H", mk("call", "tmp", pg()))
            s.m[r] = {(r,): pg()}
            q, s2 = inv(s, args[1], [mk("ref", (r,), False)])
            k = A.to_bdd(q)
            return A.phi([(A.b.and_(s2.g, k), v), (A.b.and_(s2.g, A.b.not_(k)), NONE)]), s2
        return branch(A, st, c, t, lambda s: (NONE, s))
    return None


@model("Try::branch")
def tbranch(A, st, fo, args, at, dt, span):
    v = args[0]
    isres = strip_generics(at[0]) == RES
    if isres:
        c = A.is_variant(v, RES, "Ok")
        a = agg(CF, "Continue", ("0",), (payload(A, v, "Ok"),))
        b = agg(CF, "Break", ("0",), (err(payload(A, v, "Err")),))
    elif strip_generics(at[0]) == OPT:
        c = A.is_variant(v, OPT, "Some")
        a = agg(CF, "Continue", ("0",), (payload(A, v, "Some"),))
        b = agg(CF, "Break", ("0",), (NONE,))
    else:
        return None
    return A.under(A.phi([(c, a), (A.b.not_(c), b)]), st.g), st


@model("FromResidual::from_residual")
def residual(A, st, fo, args, at, dt, span):
    v = args[0]
    if strip_generics(dt) == RES:
        e = payload(A, v, "Err")
        src, dst = last_arg(at[0]), last_arg(dt)
        if src and dst and strip_generics(src) != strip_generics(dst):
            key = from_impl(A, src, dst)
            if key:
                return map_ret(A.call(st, {"k": "const", "ck": "fn", "path": "std::convert::From::from", "key": key, "name": "from", "args": [],
                                           "res": {"kind": "item", "key": key, "local": True, "args": [], "path": "from"}}, [e], [src], dst, span))
            e = A.dist(lambda x: x if x.op in ("bottom", "undef") else into_err(dst, A.snapshot(st, x)), e)
        return err(e), st
    return NONE, st


def into_err(dst, x):
    """An error converted twice is the error converted once."""
    while x.op == "call" and x.a[0].startswith("into<") and len(x.a) == 2:
        x = x.a[1]
    return mk("call", "into<" + strip_generics(dst).split("::")[-1] + ">", x)


def map_ret(r):
    return (err(r[0]), r[1])


def last_arg(t):
    """The last generic argument of a type, without lifetimes."""
    if not t.endswith(">"):
        return None
    d, i = 0, len(t) - 1
    while i >= 0:
        c = t[i]
        if c in ">)]" and not (c == ">" and t[i - 1] == "-"):
            d += 1
        elif c in "<([":
            d -= 1
            if d == 0:
                break
        elif c == "," and d == 1:
            break
        i -= 1
    return re.sub(r"'\{?\w+\}? ?", "", t[i + 1:-1].strip())


def from_impl(A, src, dst):
    m = A.f.__dict__.get("_from")
    if m is None:
        m = A.f._from = {}
        for k, f in A.f.fns.items():
            if f.get("name") == "from" and f.get("impl_trait", "").split("::")[-1] == "From" and len(f.get("impl_trait_args", ())) > 1:
                m[strip_generics(f["impl_trait_args"][1]), strip_generics(f.get("impl_ty", ""))] = k
    return m.get((strip_generics(src), strip_generics(dst)))


@model("bool::then", "bool::then_some")
def bthen(A, st, fo, args, at, dt, span):
    c = A.to_bdd(args[0])
    if fo["name"] == "then_some":
        return A.phi([(c, some(args[1])), (A.b.not_(c), NONE)]), st

    def t(s):
        r, s2 = A.invoke(s, args[1], [], None, "", span)
        return some(r), s2
    return branch(A, st, c, t, lambda s: (NONE, s))


# logging / formatting never matters
@model("fmt::format", "Arguments::new", "ToString::to_string", "Argument::new_display", "Argument::new_debug",
       "Argument::new_lower_hex", "rt::new_display")
def fmt(A, st, fo, args, at, dt, span):
    return mk("call", "fmt", *[A.snapshot(st, a) for a in args if isinstance(a, N)]), st


# precondition and UB checks
@model("precondition_check", "intrinsics::ub_checks", "panicking::panic_const")
def nop(A, st, fo, args, at, dt, span):
    return UNIT, st


# ---------------------------------------------------------------- iterators
@model("[T]::iter_mut", "Vec::iter_mut", "slice::iter_mut", "HashMap::iter_mut", "HashMap::values_mut")
def iter_mut(A, st, fo, args, at, dt, span):
    """Making the iterator changes nothing; what is written through its elements is a write of its own."""
    return mk("call", "HashMap::values_mut" if fo["name"] == "values_mut" else "iter", A.snapshot(st, args[0])), st


def it_src(v):
    """Strip adaptors that do not change the element sequence."""
    while v.op == "call" and v.a[0] in ("iter", "[T]::iter", "[T]::iter_mut", "HashMap::into_iter", "HashMap::drain", "IntoIterator::into_iter", "Vec::iter", "slice::iter", "slice::iter_mut", "HashMap::iter", "HashMap::iter_mut",
                                        "Iterator::by_ref", "Vec::into_iter", "Vec::drain"):
        v = v.a[1]
    return v


def nx(A, st, it, span):
    """(guard that there is an element, element, state) of one generic iteration step."""
    if it.op == "ref":
        return nx(A, st, A.read(st, it.a[0]), span)
    if it.op == "it":
        k, base, f = it.a[0], it.a[1], it.a[2]
        c, e, st = nx(A, st, base, span)
        if k == "map":
            r, s2 = A.invoke(st.copy(), f, [e], None, "", span)
            return c, r, s2 if s2 is not None else st
        if k == "filter":
            r = ("H", mk("call", "tmp", e))
            s = st.copy()
            s.m[r] = {(r,): e}
            q, s2 = A.invoke(s, f, [mk("ref", (r,), False)], None, "", span)
            return A.b.and_(c, A.to_bdd(q)), e, st
        if k == "filter_map":
            r, s2 = A.invoke(st.copy(), f, [e], None, "", span)
            return A.b.and_(c, A.is_variant(r, OPT, "Some")), payload(A, r, "Some"), s2 if s2 is not None else st
        if k == "cloned":
            return c, A.deref_val(st, e), st
        if k == "enumerate":
            return c, mk("tuple", mk("idx", base), e), st
    if it.op == "call" and it.a[0] == "iter_deref":
        e = mk("elem", it_src(it.a[1]))
        if A.loop_elems:
            A.loop_elems[-1].add(e)
        return A.b.var(mk("hasnext", it_src(it.a[1]))), mk("ref", (("H", e),), True), st
    s = it_src(it)
    e = mk("elem", s)
    if A.loop_elems:
        A.loop_elems[-1].add(e)
    return A.b.var(mk("hasnext", s)), e, st


@model("Iterator::next")
def next_(A, st, fo, args, at, dt, span):
    if not A.inloop and not A.unroll:
        return None
    it = A.deref_val(st, args[0])
    k, arr = 0, it_src(it)
    if arr.op == "arrit":
        k, arr = arr.a
    if arr.op == "array" and len(arr.a) <= 32 and A.unroll and args[0].op == "ref":
        A.unroll[-1] = True
        if k == len(arr.a):
            return NONE, st
        st = st.copy()
        A.write(st, args[0].a[0], mk("arrit", k + 1, arr), event=False)
        return some(arr.a[k]), st
    while it.op in ("loop",):
        it = it.a[2]
    c, e, st = nx(A, st, it, span)
    if it.op == "it" and A.skips:
        # elements an adaptor leaves out: on to the next one
        A.skips[-1] = A.b.or_(A.skips[-1], A.b.all_([st.g, A.b.var(mk("hasnext", base_src(it))), A.b.not_(c)]))
    return A.under(A.phi([(c, some(e)), (A.b.not_(c), NONE)]), st.g), st


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map")
def it_adapt(A, st, fo, args, at, dt, span):
    if args[1].op != "closure":
        return None
    return mk("it", fo["name"], args[0], args[1]), st


def base_src(it):
    while it.op == "it":
        it = it.a[1]
    return it_src(it.a[1] if it.op == "call" and it.a[0] == "iter_deref" else it)


@model("Iterator::find", "Iterator::find_map", "Iterator::position")
def it_find(A, st, fo, args, at, dt, span):
    it = A.deref_val(st, args[0])
    n = fo["name"]
    if args[1].op == "closure" and it.op != "it" and it_src(it).op == "array" and len(it_src(it).a) <= 32:
        return find_in(A, st, n, it_src(it), args[1], span)
    if args[1].op != "closure" or base_src(it).op in ("array", "arrit", "loop"):
        return None
    nev = len(A.events)
    A.loopdepth += 1
    try:
        c, e, s = nx(A, st, it, span)
        s = s.copy()
        arg = e
        if n == "find":
            r = ("H", mk("call", "tmp", e))
            s.m[r] = {(r,): e}
            arg = mk("ref", (r,), False)
        q, s2 = A.invoke(s, args[1], [arg], None, "", span)
    finally:
        A.loopdepth -= 1
    if s2 is None or len(A.events) != nev:
        return None
    hit = A.b.and_(c, A.is_variant(q, OPT, "Some") if n == "find_map" else A.to_bdd(q))
    src = base_src(it)
    ex, mp = A.first(src, A.b.simplify(hit, st.g))
    if n == "position" and it.op == "it":
        return None
    v = payload(A, q, "Some") if n == "find_map" else e if n == "find" else mk("idx", src)
    v = A.subst(A.under(v, A.b.and_(st.g, hit)), mp, {})
    return A.under(A.phi([(ex, some(v)), (A.b.not_(ex), NONE)]), st.g), st


def find_in(A, st, n, arr, f, span):
    """find, find_map and position over a literal array, element by element."""
    nev = len(A.events)
    out, left = [], 1
    for k, x in enumerate(arr.a):
        s, arg = st.copy(A.b.and_(st.g, left)), x
        if s.g == 0:
            break
        if n == "find":
            r = ("H", mk("call", "tmp", x))
            s.m[r] = {(r,): x}
            arg = mk("ref", (r,), False)
        q, s2 = A.invoke(s, f, [arg], None, "", span)
        if s2 is None or any(e.kind != "call" or e.muts for e in A.events[nev:]):
            return None
        c = A.is_variant(q, OPT, "Some") if n == "find_map" else A.to_bdd(q)
        out.append((A.b.and_(left, c), some(payload(A, q, "Some") if n == "find_map" else x if n == "find" else INT(k))))
        left = A.b.and_(left, A.b.not_(c))
    return A.under(A.phi(out + [(left, NONE)]), st.g), st


@model("Iterator::cloned", "Iterator::copied", "Iterator::enumerate")
def it_adapt1(A, st, fo, args, at, dt, span):
    return mk("it", "cloned" if fo["name"] != "enumerate" else "enumerate", args[0], UNIT), st


def each_of(A, st, it, f, span):
    """State after f(state, element) ran for every element of an iterator."""
    h = A.b.var(mk("hasnext", base_src(it)))

    def step(s, lrets):
        c, e, s2 = nx(A, s, it, span)
        back = []
        g = A.b.and_(s.g, c)
        if g:
            s3 = f(s2.copy(g), e)
            if s3 is not None:
                back.append(s3)
        g = A.b.all_([s.g, h, A.b.not_(c)])
        if g:
            back.append(s.copy(g))
        g = A.b.and_(s.g, A.b.not_(h))
        return [(0, s.copy(g))] if g else [], back
    out = A.iterate(st, step, [])
    return out[0][1] if out else None


INSERT = {"k": "const", "ck": "fn", "path": "std::collections::HashMap::<K, V, S>::insert", "key": "hashmap::insert", "name": "insert", "args": [],
          "local": False, "impl_ty": "std::collections::HashMap"}


@model("Iterator::collect")
def it_collect(A, st, fo, args, at, dt, span):
    """Collecting pairs into a map is inserting them one by one."""
    t = strip_generics(dt)
    if t != "std::collections::HashMap" or args[0].op != "it":
        return None
    A.loopn += 1
    r = ("L", ("collect", A.loopn))
    st = st.copy()
    st.m[r] = {(r,): mk("call", "default", mk("str", t))}

    def f(s, e):
        kv = [A.project(e, ("f", k)) for k in "01"]
        return A.call(s, INSERT, [mk("ref", (r,), True)] + kv, ["&mut " + dt, "?", "?"], "?", span)[1]
    s = each_of(A, st, args[0], f, span)
    if s is None:
        return None
    return A.read(s, (r,)), s


@model("Iterator::for_each", "Iterator::count", "Iterator::sum", "Iterator::any", "Iterator::all")
def it_consume(A, st, fo, args, at, dt, span):
    n = fo["name"]
    v = args[0]
    if n == "for_each":
        s = each_of(A, st, v, lambda s, e: A.invoke(s, args[1], [e], None, "", span)[1], span)
        return (UNIT, s) if s is not None else None
    A.loopdepth += 1
    try:
        if n in ("count", "sum"):
            c, e, s = nx(A, st, v, span)
            d = INT(1) if n == "count" else A.deref_val(st, e) if e.op == "ref" else e
            ls = {}
            for g, w in A.leaves(d, A.b.and_(st.g, c)):
                if not (w.op == "int" and w.a[0] == 0):
                    ls[w] = A.b.or_(ls.get(w, 0), g)
            return mk("sum", tuple(sorted(((g, w) for w, g in ls.items()), key=lambda t: t[1].id))), st
        it = A.deref_val(st, v) if at[0].startswith("&") else v
        c, e, s = nx(A, st, it, span)
        q, s2 = A.invoke(s.copy(), args[1], [e], None, "", span)
        q = A.to_bdd(q)
        src = base_src(it)
        if src.op == "array" and len(src.a) <= 32:
            hit = A.b.restrict(A.b.and_(c, q if n == "any" else A.b.not_(q)), mk("hasnext", src), True)
            r = A.b.any_(A.gsub(hit, {mk("elem", src): x}, {}) for x in src.a)
            return A.B(r if n == "any" else A.b.not_(r)), st
        if n == "any":
            return A.B(A.b.var(mk("any", mk("bdd", A.b.and_(c, q))))), st
        return A.B(A.b.not_(A.b.var(mk("any", mk("bdd", A.b.and_(c, A.b.not_(q))))))), st
    finally:
        A.loopdepth -= 1


PUSH = {"k": "const", "ck": "fn", "path": "std::vec::Vec::<T, A>::push", "key": "alloc::vec::push", "name": "push", "args": [], "local": False,
        "impl_ty": "std::vec::Vec"}


@model("Extend::extend")
def vec_extend(A, st, fo, args, at, dt, span):
    """Appending an optional element or a literal array is pushing its elements."""
    if not re.match(r"^&('\w+ )?mut (std::vec::|alloc::vec::)?Vec<", at[0]):
        return None
    src = at[1]
    push = lambda s, x: A.call(s, PUSH, [args[0], x], [at[0], "?"], "()", span)
    if strip_generics(src).endswith("option::Option"):
        v = args[1]
        return branch(A, st, A.is_variant(v, OPT, "Some"), lambda s: push(s, A.under(payload(A, v, "Some"), s.g)), lambda s: (UNIT, s))
    if args[1].op == "array":
        for x in args[1].a:
            _, st = push(st, x)
        return UNIT, st
    return None


@model("Index::index", "IndexMut::index_mut")
def index_(A, st, fo, args, at, dt, span):
    """At the position of the first matching element lies that element."""
    i = args[1]
    if i.op == "pos" and A.deref_val(st, args[0]) is i.a[0]:
        return mk("ref", (("H", mk("first", *i.a)),), True), st
    return None


# ---------------------------------------------------------------- maps
def _map_path(A, st, v):
    p = A.target(st, v, "")
    return p


def contains(A, m, k):
    """The guard under which map m holds key k; resolved when the last change of m inserted exactly k."""
    if m.op == "with":
        if any(p == (("i", k),) for p, _ in m.a[1]):
            return 1
        if all(len(p) > 1 and p[0][0] == "i" for p, _ in m.a[1]):
            return contains(A, m.a[0], k)                          # entries changed in place: same keys
    return A.b.var(mk("contains", m, k))


@model("HashMap::insert", "BTreeMap::insert")
def map_insert(A, st, fo, args, at, dt, span):
    if args[0].op == "phi":
        return None
    p = _map_path(A, st, args[0])
    k = A.snapshot(st, args[1])
    c = contains(A, A.read(st, p), k)
    old = A.read(st, p + (("i", k),))
    st = st.copy()
    A.write(st, p + (("i", k),), args[2], span=span)
    return A.under(A.phi([(c, some(old)), (A.b.not_(c), NONE)]), st.g), st


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut", "IndexMap::get", "IndexMap::get_mut")
def map_get(A, st, fo, args, at, dt, span):
    if args[0].op == "phi":
        return None
    p = _map_path(A, st, args[0])
    k = A.snapshot(st, A.peel(st, args[1], at[1]))
    m = A.read(st, p)
    c = contains(A, m, k)
    return A.under(A.phi([(c, some(mk("ref", p + (("i", k),), True))), (A.b.not_(c), NONE)]), st.g), st


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains")
def map_contains(A, st, fo, args, at, dt, span):
    if args[0].op == "phi":
        return None
    k = A.snapshot(st, A.peel(st, args[1], at[1]))
    return A.B(contains(A, A.deref_val(st, args[0]), k)), st


@model("HashMap::entry", "BTreeMap::entry")
def map_entry(A, st, fo, args, at, dt, span):
    if args[0].op == "phi" or not re.search(r"(^|::)Entry$", strip_generics(dt)):
        return None
    p = _map_path(A, st, args[0])
    k = A.snapshot(st, args[1])
    c = contains(A, A.read(st, p), k)
    adt = strip_generics(dt)
    e = mk("entryref", p + (("i", k),), k)
    return A.under(A.phi([(c, agg(adt, "Occupied", ("0",), (e,))), (A.b.not_(c), agg(adt, "Vacant", ("0",), (e,)))]), st.g), st


@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "VacantEntry::insert", "OccupiedEntry::insert",
       "VacantEntry::key", "OccupiedEntry::key")
def entry_ops(A, st, fo, args, at, dt, span):
    e = A.deref_val(st, args[0]) if at[0].startswith("&") else args[0]
    if e.op != "entryref":
        return None
    if fo["name"] == "key":
        r = ("H", mk("call", "tmp", e.a[1]))
        st = st.copy()
        st.m[r] = {(r,): e.a[1]}
        return mk("ref", (r,), False), st
    if fo["name"] == "insert":
        st = st.copy()
        A.write(st, e.a[0], args[1], span=span)
        if dt.startswith("&"):
            return mk("ref", e.a[0], True), st
        return UNDEF, st
    return mk("ref", e.a[0], True), st


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def or_insert(A, st, fo, args, at, dt, span):
    v = args[0]
    ls = A.leaves(v)
    if not all(w.op == "agg" and w.a[3:] and w.a[3].op == "entryref" for _, w in ls):
        return None
    p = ls[0][1].a[3].a[0]
    c = A.is_variant(v, ls[0][1].a[0], "Vacant")

    def t(s):
        if fo["name"] == "or_insert":
            nv = args[1]
        elif fo["name"] == "or_default":
            nv = mk("call", "default", mk("str", "entry"))
        else:
            nv, s = A.invoke(s, args[1], [], None, "", span)
        A.write(s, p, nv, span=span)
        return mk("ref", p, True), s
    r, s2 = branch(A, st, c, t, lambda s: (mk("ref", p, True), s))
    return mk("ref", p, True), s2


@model("[T]::contains", "slice::contains", "Vec::contains")
def slice_contains(A, st, fo, args, at, dt, span):
    arr = A.deref_val(st, args[0])
    if arr.op != "array":
        return None
    x = A.peel(st, args[1], at[1])
    return A.B(A.b.any_(A.eq(x, y) for y in arr.a)), st


# ---------------------------------------------------------------- accessors of the EVM's own data types
TXENV = {"tx_type": "tx_type", "kind": "kind", "caller": "caller", "gas_limit": "gas_limit", "gas_price": "gas_price", "value": "value",
         "nonce": "nonce", "chain_id": "chain_id", "max_fee_per_gas": "gas_price", "max_fee_per_blob_gas": "max_fee_per_blob_gas",
         "input": "data", "blob_versioned_hashes": "blob_hashes", "max_priority_fee_per_gas": "gas_priority_fee"}
CTXF = {"tx": "tx", "block": "block", "cfg": "cfg", "journal": "journaled_state", "journal_mut": "journaled_state",
        "journal_ref": "journaled_state", "chain": "chain", "chain_mut": "chain", "local": "local", "local_mut": "local", "error": "error"}
BLOCKF = {n: n for n in ("number", "beneficiary", "timestamp", "gas_limit", "basefee", "difficulty", "prevrandao", "blob_excess_gas_and_price")}


def self_ty(t):
    t = base_ty(t)
    if re.match(r"^<.* as .*ContextTr>::Tx$", t) and "MegaContext" in t:
        return "OpTransaction"
    return strip_generics(t).split("::")[-1]


def places(A, arg):
    return [(g, w.a[0] if w.op == "ref" else (("H", w),)) for g, w in A.leaves(arg)]


def at_place(A, st, fs, arg, dt):
    """The place `arg.fs`, by reference or by value."""
    out = []
    for g, p in places(A, arg):
        q = p + tuple(("f", x) for x in fs)
        out.append((g, mk("ref", q, dt.startswith("&mut")) if dt.startswith("&") else A.read(st, q)))
    return A.under(A.phi(out), st.g)


def accessor(A, st, fo, args, at, dt, span):
    if (fo.get("res") or {}).get("local") or not args or not at[0].startswith("&") or at[0].startswith("&&"):
        return None
    t, n, nm = self_ty(at[0]), fo["name"], A.callee_name(fo)
    tr = nm.split("::")[0]
    fs = None
    if tr == "Transaction" and t == "TxEnv" and n in TXENV:
        fs = (TXENV[n],)
    elif tr == "Transaction" and t == "OpTransaction" and n in TXENV and n != "tx_type":
        fs = ("base", TXENV[n])
    elif tr == "Block" and t == "BlockEnv" and n in BLOCKF:
        fs = (BLOCKF[n],)
    elif tr == "ContextTr" and t == "Context" and n in CTXF:
        fs = (CTXF[n],)
    elif nm == "EvmEnv::spec_id" and t == "EvmEnv":
        fs = ("cfg_env", "spec")
    elif nm in ("Cfg::spec", "CfgEnv::spec") and t == "CfgEnv":
        fs = ("spec",)
    if fs is None:
        return None
    return at_place(A, st, fs, args[0], dt), st


for _n in ("EvmEnv::spec_id", "Cfg::spec", "CfgEnv::spec"):
    MODELS[_n] = accessor
for _n in TXENV:
    MODELS["Transaction::" + _n] = accessor
for _n in BLOCKF:
    MODELS["Block::" + _n] = accessor
for _n in CTXF:
    MODELS["ContextTr::" + _n] = accessor


@model("ContextSetters::set_tx", "ContextSetters::set_block")
def ctx_set(A, st, fo, args, at, dt, span):
    if (fo.get("res") or {}).get("local") or self_ty(at[0]) != "Context":
        return None
    st = st.copy()
    for g, p in places(A, args[0]):
        q = p + (("f", fo["name"][4:]),)
        A.write(st, q, args[1] if g == 1 else A.phi([(g, args[1]), (A.b.not_(g), A.read(st, q))]), span=span)
    return UNIT, st


CTORS = {"InterpreterResult::new": ("result", "output", "gas"), "CallOutcome::new": ("result", "memory_offset"),
         "CreateOutcome::new": ("result", "address"), "InitialAndFloorGas::new": ("initial_gas", "floor_gas")}


def ctor_model(A, st, fo, args, at, dt, span):
    fs = CTORS[A.callee_name(fo)]
    if (fo.get("res") or {}).get("local") or len(fs) != len(args):
        return None
    return agg(strip_generics(dt), strip_generics(dt).split("::")[-1], fs, args), st


for _n in CTORS:
    MODELS[_n] = ctor_model


# ---- revm's Account and EvmStorageSlot: marks and tests of one flag, and their constructors
CREATED, DESTRUCTED, TOUCHED, NOT_EXISTING, COLD, DESTRUCTED_HERE, CREATED_HERE = 1, 2, 4, 8, 16, 64, 128
SET_FLAG = {"mark_selfdestruct": DESTRUCTED, "mark_touch": TOUCHED, "mark_created": CREATED, "mark_cold": COLD}
CLEAR_FLAG = {"unmark_selfdestruct": DESTRUCTED, "unmark_touch": TOUCHED, "unmark_created": CREATED,
              "unmark_created_locally": CREATED_HERE, "unmark_selfdestructed_locally": DESTRUCTED_HERE}
WITH_FLAG = {"with_selfdestruct_mark": DESTRUCTED, "with_touched_mark": TOUCHED, "with_created_mark": CREATED, "with_cold_mark": COLD}
IS_FLAG = {"is_selfdestructed": DESTRUCTED, "is_touched": TOUCHED, "is_created_locally": CREATED_HERE, "is_created": CREATED,
           "is_selfdestructed_locally": DESTRUCTED_HERE, "is_loaded_as_not_existing": NOT_EXISTING}
ST = ("f", "status")


def flagged(A, n, x, k):
    return A.dist(lambda p: flags(n, p, INT(k)), x) or flags(n, x, INT(k))


def account_mark(A, st, fo, args, at, dt, span):
    n = fo["name"]
    st = st.copy()
    for g, p in places(A, args[0]):
        q = p + (ST,)
        old = A.read(st, q)
        v = flagged(A, "insert", old, SET_FLAG[n]) if n in SET_FLAG else flagged(A, "remove", old, CLEAR_FLAG[n])
        A.write(st, q, v if g == 1 else A.phi([(g, v), (A.b.not_(g), old)]), span=span)
    return UNIT, st


def account_with(A, st, fo, args, at, dt, span):
    return A.update(args[0], (ST,), flagged(A, "insert", A.project(args[0], ST), WITH_FLAG[fo["name"]])), st


def account_is(A, st, fo, args, at, dt, span):
    return A.dist(lambda p: flag_is(p, IS_FLAG[fo["name"]]), at_place(A, st, ("status",), args[0], "u8")), st


for _n in list(SET_FLAG) + list(CLEAR_FLAG):
    MODELS["Account::" + _n] = account_mark
for _n in WITH_FLAG:
    MODELS["Account::" + _n] = account_with
for _n in IS_FLAG:
    MODELS["Account::" + _n] = account_is


def new_account(ty, info=None, tid=None, status=0):
    t = strip_generics(ty)
    dflt = lambda x: mk("call", "default", mk("str", x))
    return agg(t, "Account", ("info", "transaction_id", "storage", "status"),
               [info or dflt(t.replace("::Account", "::AccountInfo")), tid or INT(0), dflt("std::collections::HashMap"), INT(status)])


@model("Account::new_not_existing")
def account_none(A, st, fo, args, at, dt, span):
    return new_account(dt, tid=args[0], status=NOT_EXISTING), st


@model("Account::with_info")
def account_with_info(A, st, fo, args, at, dt, span):
    return A.update(args[0], (("f", "info"),), args[1]), st


@model("EvmStorageSlot::mark_cold")
def slot_mark(A, st, fo, args, at, dt, span):
    st = st.copy()
    for g, p in places(A, args[0]):
        q = p + (("f", "is_cold"),)
        A.write(st, q, A.B(1) if g == 1 else A.phi([(g, A.B(1)), (A.b.not_(g), A.read(st, q))]), span=span)
    return UNIT, st


@model("EvmStorageSlot::new", "EvmStorageSlot::new_changed")
def slot_new(A, st, fo, args, at, dt, span):
    t = strip_generics(dt)
    a = args if len(args) == 3 else [args[0]] + list(args)
    return agg(t, t.split("::")[-1], ("original_value", "present_value", "transaction_id", "is_cold"), a + [A.B(0)]), st


@model("EvmStorageSlot::is_changed")
def slot_changed(A, st, fo, args, at, dt, span):
    f = lambda n: at_place(A, st, (n,), args[0], "U256")
    return A.B(A.b.not_(A.eq(f("original_value"), f("present_value")))), st


@model("EvmStorageSlot::present_value", "EvmStorageSlot::original_value")
def slot_value(A, st, fo, args, at, dt, span):
    return at_place(A, st, (fo["name"],), args[0], dt), st
