"""Relational rules: facts that must hold between parts of the code, stated independently of the stored contracts.

Each rule takes the analysis context and returns (violations, obligations discharged).  A rule reports definite contradictions
only: where a function no longer has the shape the rule reads, the obligation is left to the contract comparison.
"""
import itertools
import json
import os
import re

from guard import Guard, weaker_abort
from rules import Ob, SPECS, CONTRACTS, MissingAnchor, label

MEGA = SPECS[1:]
U64 = 2 ** 64 - 1


# ------------------------------------------------------------------------------------------------ helpers
def viol(rule, fn, spec, key, detail, span=""):
    return {"spec": spec, "kind": "rule " + rule, "key": key, "detail": detail, "span": span or "", "fn": fn}


def facts(ctx, name, ty=None, trait=None, mod=None, spec="-"):
    """(facts, span) of one function, or (None, '') when it cannot be found."""
    try:
        fn = ctx.find(Ob(name, ty, trait, mod))
    except MissingAnchor:
        return None, ""
    s = ctx.summary(fn, spec)
    return s["facts"], s["span"]


def leaves(v):
    """[(value text, guard)] of a fact."""
    return [(v, "T")] if isinstance(v, str) else list(v.items())


class Unknown(Exception):
    pass


def value(fact, atom):
    """The value of a fact under an assignment of its atoms; None when no leaf applies."""
    for v, g in leaves(fact):
        if Guard(g).ev(atom):
            return v
    return None


def is_atom(subject, variant):
    """Assignment `subject is variant`, every other test of the subject false."""
    def at(a):
        m = re.fullmatch(re.escape(subject) + r" is (\w+)", a)
        if not m:
            raise Unknown(a)
        return m.group(1) == variant
    return at


def attempt(f):
    """A rule part that skips what it cannot read."""
    try:
        return f()
    except (Unknown, ValueError, KeyError, AttributeError, IndexError):
        return [], 0


def calls_of(ctx, fn):
    """Keys of the functions a body (with its closures) mentions."""
    from rules import body_calls
    out = set()
    for k, f in ctx.F.fns.items():
        if k == fn["key"] or k.startswith(fn["key"] + "::{closure"):
            body_calls({"blocks": f["blocks"], "promoted": f.get("promoted")}, out)
    return out


# ------------------------------------------------------------------------------------------------ protocol versions
LIMITS = {   # published per-transaction limits by version
    "EQUIVALENCE": dict(tx_compute_gas_limit=U64, tx_data_size_limit=U64, tx_kv_updates_limit=U64, tx_state_growth_limit=U64,
                        block_env_access_compute_gas_limit=U64, oracle_access_compute_gas_limit=U64),
    "MINI_REX": dict(tx_compute_gas_limit=10 ** 9, tx_data_size_limit=3_276_800, tx_kv_updates_limit=125_000, tx_state_growth_limit=U64,
                     block_env_access_compute_gas_limit=20_000_000, oracle_access_compute_gas_limit=1_000_000),
    "REX": dict(tx_compute_gas_limit=200_000_000, tx_data_size_limit=13_107_200, tx_kv_updates_limit=500_000, tx_state_growth_limit=1000,
                block_env_access_compute_gas_limit=20_000_000, oracle_access_compute_gas_limit=1_000_000),
}
LIMITS["REX1"] = LIMITS["REX2"] = LIMITS["REX"]
LIMITS["REX3"] = LIMITS["REX4"] = dict(LIMITS["REX"], oracle_access_compute_gas_limit=20_000_000)


def spec_limits(ctx):
    """Each version's limits are the published constants."""
    bad, n = [], 0
    for sp, want in LIMITS.items():
        f, span = facts(ctx, "from_spec", "EvmTxRuntimeLimits", spec=sp)
        for k, w in want.items():
            v = (f or {}).get("ret." + k)
            if isinstance(v, str) and v.isdigit():
                n += 1
                if int(v) != w:
                    bad.append(viol("spec_limits", "EvmTxRuntimeLimits::from_spec", sp, k, f"published {w}, computed {v}", span))
    return bad, n


def spec_order(ctx):
    """Versions and forks are declared oldest first, so that `>=` comparisons mean `at or after`."""
    bad, n = [], 0
    for tail, want in (("::MegaSpecId", SPECS), ("::MegaHardfork", ["MiniRex", "MiniRex1", "MiniRex2", "Rex", "Rex1", "Rex2", "Rex3", "Rex4"])):
        for path, a in ctx.F.adts.items():
            if path.endswith(tail):
                got = [v["n"] for v in a["variants"]]
                known = [v for v in got if v in want]
                n += 1
                if known != [w for w in want if w in got]:
                    bad.append(viol("spec_order", path, "*", "order", f"declared as {got}"))
    return bad, n


def spec_names(ctx):
    """The name of a version parses back to that version."""
    return names(ctx, "spec_names", ("from", "str", "From", "evm::spec"), "a1", ("from_str", "MegaSpecId", "FromStr", None), "MegaSpecId", SPECS)


def fork_names(ctx):
    forks = ["MiniRex", "MiniRex1", "MiniRex2", "Rex", "Rex1", "Rex2", "Rex3", "Rex4"]
    return names(ctx, "fork_names", ("name", "MegaHardfork", "Hardfork", None), "self", ("from_str", "MegaHardfork", "FromStr", None), "MegaHardfork", forks)


def names(ctx, rule, show, subj, parse, adt, variants):
    bad, n = [], 0
    f, span = facts(ctx, *show)
    g, gspan = facts(ctx, *parse)
    if not f or not g:
        return bad, n
    for v in variants:
        def one():
            nm = value(f["ret"], is_atom(subj, v))
            if nm is None or not nm.startswith("'"):
                raise Unknown(nm)

            def at(a):
                q = re.findall(r"'[^']*'", a)
                if len(q) != 1 or " == " not in a or not re.search(r"\ba1\b", a):
                    raise Unknown(a)
                low = "lower" in a or "ignore_ascii_case" in a or "upper" in a
                return q[0].lower() == nm.lower() if low else q[0] == nm
            back = value(g["ret!Ok.0"], at)
            if back is not None and back.startswith(adt + "::") and back != f"{adt}::{v}":
                return [viol(rule, f"{adt}::from_str", "*", v, f"{v} is printed as {nm}, which parses as {back}", gspan)], 1
            if back is None and value(g["ret"], at) == "Result::Err":
                return [viol(rule, f"{adt}::from_str", "*", v, f"{v} is printed as {nm}, which does not parse", gspan)], 1
            return [], 1
        b, k = attempt(one)
        bad += b
        n += k
    return bad, n


FORK_SPEC = {"MiniRex": "MINI_REX", "MiniRex1": "EQUIVALENCE", "MiniRex2": "MINI_REX", "Rex": "REX", "Rex1": "REX1", "Rex2": "REX2",
             "Rex3": "REX3", "Rex4": "REX4"}


def fork_agreement(ctx):
    """Under every combination of active forks, the newest active one is reported and selects its version."""
    bad, n = [], 0
    forks = list(FORK_SPEC)
    fs, span = facts(ctx, "spec_id", None, None, "hardfork::MegaHardforks")
    fh, hspan = facts(ctx, "hardfork", None, None, "hardfork::MegaHardforks")
    fm, mspan = facts(ctx, "spec_id", "MegaHardfork")

    def evaluator(fact):
        ls = [(v, Guard(g)) for v, g in leaves(fact)]

        def run(active):
            def at(a):
                m = re.search(r"MegaHardfork::(\w+)\), a1\)$", a)
                if not m or "active_at_timestamp" not in a:
                    raise Unknown(a)
                return m.group(1) in active
            for v, g in ls:
                if g.ev(at):
                    return v
            return None
        return run

    def part(fact, want, rule_fn, sp):
        run = evaluator(fact)
        out, k = [], 0
        for bits in itertools.product([0, 1], repeat=len(forks)):
            active = {f for f, b in zip(forks, bits) if b}
            newest = next((f for f in reversed(forks) if f in active), None)
            got = run(active)
            w = want(newest)
            k += 1
            if got is not None and got != w:
                out.append(viol("fork_agreement", rule_fn, "*", "newest fork", f"with {sorted(active)} active: {got}, expected {w}", sp))
                break
        return out, k
    if fs:
        b, k = attempt(lambda: part(fs["ret"], lambda f: "MegaSpecId::" + (FORK_SPEC[f] if f else "EQUIVALENCE"), "MegaHardforks::spec_id", span))
        bad, n = bad + b, n + k
    if fh:
        b, k = attempt(lambda: part(fh["ret!Some.0"], lambda f: "MegaHardfork::" + f if f else None, "MegaHardforks::hardfork", hspan))
        bad, n = bad + b, n + k
    if fm:
        for f, sp in FORK_SPEC.items():
            def one():
                v = value(fm["ret"], is_atom("self", f))
                if v is not None and v.startswith("MegaSpecId::") and v != "MegaSpecId::" + sp:
                    return [viol("fork_agreement", "MegaHardfork::spec_id", "*", f, f"{f} selects {v}, expected {sp}", mspan)], 1
                return [], 1
            b, k = attempt(one)
            bad, n = bad + b, n + k
    return bad, n


def baseline_inert(ctx):
    """Under the baseline version no frame or opcode path reaches a MegaETH resource counter, price or oracle."""
    bad, n = [], 0
    pat = re.compile(r"^call (AdditionalLimit::(before_frame_init|before_frame_run|on_log|on_sstore|record_compute_gas|after_create_frame_run|"
                     r"before_frame_return_result|set_compute_gas_limit)|DynamicGasCost::|OracleEnv::|execute_keyless_deploy_call)")
    anchors = [("frame_init", "MegaEvm", "EvmTr"), ("frame_run", "MegaEvm", "EvmTr"), ("frame_return_result", "MegaEvm", "EvmTr"),
               ("inspect_frame_init", "MegaEvm", "InspectorEvmTr"), ("inspect_frame_run", "MegaEvm", "InspectorEvmTr"),
               ("before_frame_run", "MegaEvm", None), ("after_frame_run", "MegaEvm", None), ("after_frame_run_instructions", "MegaEvm", None),
               ("validate", "MegaHandler", "Handler"), ("before_execution", "MegaHandler", None), ("last_frame_result", "MegaHandler", "Handler"),
               ("sload", "MegaContext", "Host"), ("log", "MegaContext", "Host"), ("sstore", "MegaContext", "Host")]
    for a in anchors:
        f, span = facts(ctx, a[0], a[1], a[2], spec="EQUIVALENCE")
        if f is None:
            continue
        n += 1
        for k in f:
            if pat.match(k):
                bad.append(viol("baseline_inert", f"{a[1]}::{a[0]}", "EQUIVALENCE", k[:200], "reached under the baseline version", span))
    t, inner = ctx.table("EQUIVALENCE")
    n += 1
    if t is not None:
        own = [i for i, (k, nm, _) in enumerate(t) if k in ctx.F.fns]
        if own:
            bad.append(viol("baseline_inert", "MegaInstructions::new", "EQUIVALENCE", "opcodes", f"opcodes {[hex(i) for i in own[:8]]} replaced"))
    return bad, n


# ------------------------------------------------------------------------------------------------ opcodes
def upstream():
    """Opcode -> standard action (revm-interpreter's table)."""
    t = {}
    seq = {
        0x00: "control::stop arithmetic::add arithmetic::mul arithmetic::sub arithmetic::div arithmetic::sdiv arithmetic::rem arithmetic::smod "
              "arithmetic::addmod arithmetic::mulmod arithmetic::exp arithmetic::signextend",
        0x10: "bitwise::lt bitwise::gt bitwise::slt bitwise::sgt bitwise::eq bitwise::iszero bitwise::bitand bitwise::bitor bitwise::bitxor "
              "bitwise::not bitwise::byte bitwise::shl bitwise::shr bitwise::sar bitwise::clz",
        0x20: "system::keccak256",
        0x30: "system::address host::balance tx_info::origin system::caller system::callvalue system::calldataload system::calldatasize "
              "system::calldatacopy system::codesize system::codecopy tx_info::gasprice host::extcodesize host::extcodecopy "
              "system::returndatasize system::returndatacopy host::extcodehash",
        0x40: "host::blockhash block_info::coinbase block_info::timestamp block_info::block_number block_info::difficulty block_info::gaslimit "
              "block_info::chainid host::selfbalance block_info::basefee tx_info::blob_hash block_info::blob_basefee",
        0x50: "stack::pop memory::mload memory::mstore memory::mstore8 host::sload host::sstore control::jump control::jumpi control::pc "
              "memory::msize system::gas control::jumpdest host::tload host::tstore memory::mcopy stack::push0",
        0xF0: "contract::create contract::call contract::call_code control::ret contract::delegate_call contract::create",
        0xFA: "contract::static_call", 0xFD: "control::revert", 0xFE: "control::invalid", 0xFF: "host::selfdestruct",
    }
    for s, names_ in seq.items():
        for i, x in enumerate(names_.split()):
            t[s + i] = x
    for i in range(32):
        t[0x60 + i] = f"stack::push::<{i + 1}>"
    for i in range(16):
        t[0x80 + i] = f"stack::dup::<{i + 1}>"
        t[0x90 + i] = f"stack::swap::<{i + 1}>"
    for i in range(5):
        t[0xA0 + i] = f"host::log::<{i}>"
    return t


ACTION = re.compile(r"^call ((?:arithmetic|bitwise|control|system|host|tx_info|block_info|memory|stack|contract)::[a-z_0-9]+(?:::<[^>]*>)?)\(")


def opcode_metering(ctx):
    """Every opcode of every later version runs the action of its own standard opcode and records what it cost."""
    bad, n = [], 0
    up = upstream()
    metered = has_method(ctx, "AdditionalLimit", "record_compute_gas")
    plain = lambda s: re.sub(r"::<.*", "", s)
    for sp in MEGA:
        t, inner = ctx.table(sp)
        if t is None:
            bad.append(viol("opcode_metering", "MegaInstructions::new", sp, "table", "the unmetered upstream table is in use"))
            continue
        seen = {}
        for op in range(256):
            key, nm, ga = t[op]
            want = up.get(op)
            where = f"opcode 0x{op:02x}"
            n += 1
            if key not in ctx.F.fns:
                ok = nm.endswith(("control::unknown", "control::invalid")) and (want in (None, "control::invalid") or op == 0xFF and sp in ("MINI_REX", "REX", "REX1"))
                if not ok and re.match(r"^[\w:]+$", plain(nm)):
                    bad.append(viol("opcode_metering", where, sp, nm, f"runs {nm} without metering; its standard action is {want}"))
                continue
            if op == 0xFF and sp in ("MINI_REX", "REX", "REX1"):
                bad.append(viol("opcode_metering", where, sp, nm, "self-destruct must be invalid before REX2"))
                continue
            ob = Ob(None, opcode=op)
            fn = ctx.F.fns[key]
            f = ctx.summary(fn, sp, consts=ctx.consts_of(ob, sp))["facts"]
            acts = {m.group(1) for m in map(ACTION.match, f) if m}
            if want is None and acts <= {"control::unknown", "control::invalid"}:
                continue
            if want is None:
                bad.append(viol("opcode_metering", where, sp, nm, "an undefined opcode has a handler", fn.get("span")))
                continue
            wrong = [a for a in acts if plain(a) != plain(want) or ("::<" in want and re.fullmatch(r".*::<\d+>", a) and a != want)]
            if wrong:
                bad.append(viol("opcode_metering", where, sp, wrong[0], f"standard action is {want}", fn.get("span")))
            if metered and not any(k.startswith("call AdditionalLimit::record_compute_gas(") for k in f):
                bad.append(viol("opcode_metering", where, sp, nm, "its cost is not recorded as compute gas", fn.get("span")))
    return bad, n


def storage_prices(ctx):
    """Base prices of storage gas: ×multiplier in MINI_REX, ×(multiplier − 1) from REX on."""
    bad, n = [], 0
    want = {"sstore_set_gas": (2_000_000, 20_000), "new_account_gas": (2_000_000, 25_000), "create_contract_gas": (2_000_000, 32_000)}
    for name, (mini, rex) in want.items():
        for sp in MEGA:
            f, span = facts(ctx, name, "DynamicGasCost", spec=sp)
            for v, g in leaves((f or {}).get("ret!Ok.0", {})):
                m = re.fullmatch(r"\(\+(\d+)\*(?:self\.\w+\[.*\]|\(.* Div (\d+)\))(?: -(\d+))?\)", v)
                if not m:
                    continue
                n += 1
                base, off = int(m.group(1)), int(m.group(3) or 0)
                w = (mini, 0) if sp == "MINI_REX" else (rex, rex)
                if (base, off) != w or m.group(2) not in (None, "256"):
                    bad.append(viol("storage_prices", "DynamicGasCost::" + name, sp, v[:120], f"expected base {w[0]} offset {w[1]}, buckets of 256", span))
    return bad, n


PEEK_FORBIDDEN = {"touch", "touch_account", "mark_touch", "mark_warm", "mark_warm_with_transaction_id", "sload", "sstore", "load_account",
                  "load_account_code", "load_account_delegated", "load_account_optional", "warm_account", "push", "transfer", "inc_nonce",
                  "set_code", "set_storage", "mark_created", "unmark_cold"}


def inspect_pure(ctx):
    """The peek functions contain no call that warms, touches or journals."""
    bad, n = [], 0
    for name, ty, trait in (("inspect_account_delegated", "Journal", "JournalInspectTr"), ("inspect_storage", "Journal", "JournalInspectTr"),
                            ("inspect", "Stack", "StackInspectTr")):
        try:
            fn = ctx.find(Ob(name, ty, trait))
        except MissingAnchor:
            continue
        n += 1
        todo, seen = [fn["key"]], set()
        while todo:
            k = todo.pop()
            if k in seen or k not in ctx.F.fns:
                continue
            seen.add(k)
            for c in calls_of(ctx, ctx.F.fns[k]):
                if c in ctx.F.fns:
                    todo.append(c)
                elif c.split("::")[-1] in PEEK_FORBIDDEN and not c.startswith(("alloc", "std", "core")):
                    bad.append(viol("inspect_pure", f"{ty}::{name}", "*", c, "a lookup for pricing must not change what execution observes", fn.get("span")))
    return bad, n


# ------------------------------------------------------------------------------------------------ limits
CHECKS = [("DataSizeTracker", "ExceedsDataLimit"), ("KVUpdateCounter", "ExceedsKVUpdateLimit"), ("ComputeGasTracker", "ExceedsComputeGasLimit"),
          ("StateGrowthTracker", "ExceedsStateGrowthLimit")]


def check_order(ctx):
    """All 32 combinations of exceeded limits and prior verdict: the first exceeded one in order, and never replaced."""
    f, span = facts(ctx, "check_limit", "AdditionalLimit", spec="REX4")
    if not f:
        return [], 0

    def part():
        out, k = [], 0
        ls = [(v, Guard(g)) for v, g in leaves(f["ret"])]
        for bits in itertools.product([0, 1], repeat=5):
            fresh, ex = bits[0], bits[1:]

            def at(a):
                if a == "self.has_exceeded_limit is WithinLimit":
                    return bool(fresh)
                for (t, _), b in zip(CHECKS, ex):
                    if a.startswith(t + "::exceeds_limit("):
                        return bool(b)
                raise Unknown(a)
            got = next((v for v, g in ls if g.ev(at)), None)
            k += 1
            hit = next((r for (_, r), b in zip(CHECKS, ex) if b), None)
            want = "self.has_exceeded_limit" if not fresh or hit is None else "AdditionalLimitResult::" + hit
            if got is not None and got != want and not (hit is None and fresh and got == "AdditionalLimitResult::WithinLimit"):
                out.append(viol("check_order", "AdditionalLimit::check_limit", "*", want, f"fresh={fresh} exceeded={ex}: reports {got}", span))
        return out, k
    return attempt(part)


def has_method(ctx, ty, name):
    try:
        ctx.find(Ob(name, ty))
        return True
    except MissingAnchor:
        return False


def frame_symmetry(ctx):
    """Data size, storage updates and state growth follow every frame together: each event reaches all three or none."""
    bad, n = [], 0
    ts = ("DataSizeTracker", "KVUpdateCounter", "StateGrowthTracker")
    for name in ("before_frame_init", "before_frame_return_result", "on_inspector_intercept"):
        for sp in MEGA:
            f, span = facts(ctx, name, "AdditionalLimit", spec=sp)
            if not f:
                continue
            ev = {}
            for k, v in f.items():
                m = re.match(r"call (\w+)::(record_call|record_create|end_frame|on_inspector_intercept|\w*intercept\w*)\(", k)
                if m and m.group(1) in ts:
                    ev.setdefault(m.group(2), {}).setdefault(m.group(1), []).append(v)
            for e, by in ev.items():
                n += 1
                gone = [t for t in ts if t not in by]
                if any(not has_method(ctx, t, e) for t in gone):
                    continue                                  # the trackers no longer share these names
                if gone:
                    bad.append(viol("frame_symmetry", "AdditionalLimit::" + name, sp, e, f"not passed on to {gone}", span))
                elif len({str(sorted(map(str, v))) for v in by.values()}) > 1:
                    bad.append(viol("frame_symmetry", "AdditionalLimit::" + name, sp, e, "passed on under different conditions", span))
    return bad, n


def reset_restores_new(ctx):
    """What a reset leaves is what the constructor makes, field by field."""
    bad, n = [], 0
    for ty in ("AdditionalLimit", "ComputeGasTracker", "DataSizeTracker", "KVUpdateCounter", "StateGrowthTracker", "VolatileDataAccessTracker"):
        for sp in ("REX", "REX4"):
            new, _ = facts(ctx, "new", ty, spec=sp)
            rst, span = facts(ctx, "reset", ty, spec=sp)
            if not new or not rst or "state self" in rst:
                continue
            for k, v in new.items():
                m = re.fullmatch(r"ret\.(\w+)", k)
                if not m or not isinstance(v, str):
                    continue
                fld = m.group(1)
                if fld == "limits" or "limit" in fld and (ty == "VolatileDataAccessTracker" and v.startswith("a") or sp == "REX" and v.startswith("a1")):
                    continue                                  # configuration; before REX1 lowered limits stayed in force
                n += 1
                w = re.sub(r"\ba1\b", "self.limits", v)
                got = rst.get("state self." + fld)
                if got == w:
                    continue
                c = re.fullmatch(r"(\w+)::new\(\)", v)
                if got is None and c and any(x.startswith(f"call {c.group(1)}::reset(&mut self.{fld})") for x in rst):
                    continue
                if got is None and any(x.startswith((f"state self.{fld}", f"call Vec::clear(&mut self.{fld}")) or f"self.{fld}" in x for x in rst):
                    continue                                  # reset in another form: left to the contract
                bad.append(viol("reset_restores_new", f"{ty}::reset", sp, fld, f"constructor makes {v}, reset leaves {got or 'it as it is'}", span))
    return bad, n


# ------------------------------------------------------------------------------------------------ volatile data
BITS = {"block_number": 1 << 0, "timestamp": 1 << 1, "beneficiary": 1 << 2, "difficulty": 1 << 3, "gas_limit": 1 << 4, "basefee": 1 << 5,
        "prevrandao": 1 << 6, "block_hash": 1 << 7, "blob_gasprice": 1 << 8, "blob_hash": 1 << 9}


def volatile_bits(ctx):
    """Reading a block field records that field's own flag, always."""
    bad, n = [], 0
    for name, bit in BITS.items():
        for sp in ("MINI_REX", "REX4"):
            f, span = facts(ctx, name, "MegaContext", "Host", spec=sp)
            if not f:
                continue
            n += 1
            ms = [(re.match(r"call (?:MegaContext|VolatileDataAccessTracker)::mark_block_env_accessed\(.*, (\d+)\)$", k), v) for k, v in f.items()]
            ms = [(int(m.group(1)), v) for m, v in ms if m]
            if not ms and not any("mark_block_env_accessed" in k or "volatile_data_tracker" in k for k in f):
                bad.append(viol("volatile_bits", "MegaContext::" + name, sp, name, "the read is not recorded", span))
            for b, v in ms:
                if b != bit:
                    bad.append(viol("volatile_bits", "MegaContext::" + name, sp, str(b), f"records flag {b}, the field's flag is {bit}", span))
                if isinstance(v, dict) and list(v.values()) != ["T"]:
                    bad.append(viol("volatile_bits", "MegaContext::" + name, sp, str(b), f"recorded only when {list(v.values())[0][:200]}", span))
    return bad, n


# ------------------------------------------------------------------------------------------------ inspection, wrappers, codec
HOOKS = ("before_frame_run", "after_frame_run", "after_frame_run_instructions", "before_frame_init", "before_frame_return_result")


def inspector_parity(ctx):
    """A traced run goes through the same metering hooks as an untraced one."""
    bad, n = [], 0
    for a, b in ((("frame_run", "MegaEvm", "EvmTr"), ("inspect_frame_run", "MegaEvm", "InspectorEvmTr")),):
        try:
            fa, fb = ctx.find(Ob(a[0], a[1], a[2])), ctx.find(Ob(b[0], b[1], b[2]))
        except MissingAnchor:
            continue
        ha, hb = hooks(ctx, fa), hooks(ctx, fb)
        for h in HOOKS:
            n += 1
            if h in ha and h not in hb:
                bad.append(viol("inspector_parity", f"{b[1]}::{b[0]}", "*", h, f"hook reached from {'only ' + (a[0] if h in ha else b[0])}", fb.get("span")))
    return bad, n


def hooks(ctx, fn):
    """Names of the hooks reached from a function (through this crate's functions)."""
    out, todo, seen = set(), [fn["key"]], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in ctx.F.fns:
            continue
        seen.add(k)
        for c in calls_of(ctx, ctx.F.fns[k]):
            nm = c.split("::")[-1]
            if nm in HOOKS:
                out.add(nm)
            elif c in ctx.F.fns:
                todo.append(c)
    return out


def wrappers_forward(ctx):
    """Behind a reference, box or shared pointer every method answers with the wrapped value's own answer."""
    bad, n = [], 0
    traits = ("OracleEnv", "SaltEnv", "ExternalEnvFactory", "MegaHardforks", "BlockHashes", "MegaTransactionExt")
    methods = {}
    for k, f in ctx.F.fns.items():
        for t in traits:
            m = re.fullmatch(r".*::" + t + r"::(\w+)", k)
            if m and f["kind"] == "AssocFn":
                methods.setdefault(t, set()).add(m.group(1))               # provided methods
    for im in ctx.F.impls:
        t = im["trait"].split("::")[-1]
        if t not in traits or not re.match(r"^(&|std::boxed::Box<T|std::sync::Arc<T|std::rc::Rc<T)", im["selfstr"]):
            continue
        items = dict(im["items"])
        for m in methods.get(t, ()):
            n += 1
            if m not in items:
                bad.append(viol("wrappers_forward", f"<{im['selfstr']} as {t}>", "*", m, "falls back to the default instead of the wrapped value's method"))
        for m, k in items.items():
            fn = ctx.F.fns.get(k)
            if fn is None:
                continue
            n += 1
            own = {c.split("::")[-1] for c in calls_of(ctx, fn) if c.startswith(im["trait"] + "::")}
            if own and own != {m}:
                bad.append(viol("wrappers_forward", f"<{im['selfstr']} as {t}>", "*", m, f"answers with {sorted(own)}", fn.get("span")))
    return bad, n


def forwarders(ctx):
    """A wrapped transaction forwards each accessor to the accessor of the same name."""
    bad, n = [], 0
    for k, fn in list(ctx.F.fns.items()):
        l = label(fn) if fn.get("name") and fn["kind"] == "AssocFn" else ""
        m = re.search(r"<EnrichedMegaTx as (Transaction|Typed2718)>::(\w+)$", l)
        if not m:
            continue
        f = ctx.summary(fn, "-")["facts"].get("ret")
        r = re.match(r"^(\w+)::(\w+)\(", f) if isinstance(f, str) else None
        if r and r.group(1) == m.group(1):
            n += 1
            if r.group(2) != m.group(2):
                bad.append(viol("forwarders", "EnrichedMegaTx::" + m.group(2), "*", m.group(2), f"answers with {f[:120]}", fn.get("span")))
    return bad, n


def setters(ctx):
    """`with_x(v)` changes field x to v and nothing else."""
    bad, n = [], 0
    for ty in ("EvmTxRuntimeLimits", "BlockLimits"):
        fields = set()
        for path, a in ctx.F.adts.items():
            if path.endswith("::" + ty):
                fields = {(f[0] if isinstance(f, list) else f) for v in a["variants"] for f in v.get("fs", v.get("f", []))}
        for k, fn in list(ctx.F.fns.items()):
            l = label(fn) if fn.get("name") and fn["kind"] == "AssocFn" else ""
            m = re.search(rf"<{ty}>::with_(\w+)$", l)
            if not m or m.group(1) not in fields:
                continue
            r = ctx.summary(fn, "-")["facts"].get("ret")
            g = re.fullmatch(r"self((?:\[\.\w+:=[^\[\]]*\])+)", r) if isinstance(r, str) else None
            if not g:
                continue
            n += 1
            ws = re.findall(r"\[\.(\w+):=([^\[\]]*)\]", g.group(1))
            if [w[0] for w in ws] != [m.group(1)] or ws[0][1] != "a1":
                bad.append(viol("setters", f"{ty}::with_{m.group(1)}", "*", r[:160], "sets something else", fn.get("span")))
    return bad, n


def error_codec(ctx):
    """decode(encode(e)) = e for every error: distinct payload types, the same payload type and the same details both ways."""
    bad, n = [], 0
    fe, espan = facts(ctx, "encode_error_result", None, None, "sandbox::error", "REX4")
    fd, dspan = facts(ctx, "decode_error_result", None, None, "sandbox::error", "REX4")
    vs = []
    for path, a in ctx.F.adts.items():
        if path.endswith("::KeylessDeployError"):
            vs = [v["n"] for v in a["variants"]]
    if not fe or not fd or not vs:
        return bad, n
    used = {}
    for v in vs:
        def one():
            out = []
            t = value(fe["ret"], is_atom("a1", v))
            m = re.fullmatch(r"into<Bytes>\((\w+)::abi_encode\((\w+)(?:\{(.*)\})?\)\)", t or "")
            if not m or m.group(1) != m.group(2):
                raise Unknown(t)
            T = m.group(1)
            if T in used:
                out.append(viol("error_codec", "encode_error_result", "*", v, f"{v} and {used[T]} share the payload {T}", espan))
            used[T] = v
            flds = dict(x.split(":", 1) for x in re.split(r", (?=\w+:)", m.group(3))) if m.group(3) else {}

            def at(a):
                x = re.fullmatch(r"(\w+)::abi_decode\(a1\) is Ok", a)
                if not x:
                    raise Unknown(a)
                return x.group(1) == T
            back = value(fd["ret!Some.0"], at)
            if back is None:
                if value(fd["ret"], at) == "Option::None":
                    out.append(viol("error_codec", "decode_error_result", "*", v, f"the payload of {v} is not recognised", dspan))
            elif back != f"KeylessDeployError::{v}":
                out.append(viol("error_codec", "decode_error_result", "*", v, f"the payload of {v} decodes to {back}", dspan))
            for wire, src in flds.items():
                s = re.fullmatch(rf"a1!{v}\.(\w+)", src)
                if not s:
                    continue
                d = fd.get(f"ret!Some.0!{v}.{s.group(1)}")
                got = value(d, at) if d is not None else None
                g = re.fullmatch(rf"{T}::abi_decode\(a1\)!Ok\.0\.(\w+)", got or "")
                if g and g.group(1) != wire:
                    out.append(viol("error_codec", "decode_error_result", "*", f"{v}.{s.group(1)}", f"sent as {wire}, read from {g.group(1)}", dspan))
            return out, 1 + len(flds)
        b, k = attempt(one)
        bad, n = bad + b, n + k
    return bad, n


# ------------------------------------------------------------------------------------------------ aborts and ambient input
def aborts(ctx, spec="REX4"):
    """{label: abort fact} of every function of the crate that has one."""
    out, n = {}, 0
    for l in ctx.inv["fns"]:
        fs = ctx.labels.get(l) or []
        if len(fs) != 1:
            continue
        s = ctx.limited(fs[0], spec, 40)
        if s is None:
            continue
        n += 1
        if "panic" in s["facts"]:
            out[l] = (s["facts"]["panic"], (s.get("spans") or {}).get("panic") or s["span"])
    return out, n


def no_new_aborts(ctx):
    """No function aborts in a case in which it did not abort before."""
    with open(os.path.join(CONTRACTS, "aborts.json")) as fh:
        old = json.load(fh)
    bad = []
    cur, n = aborts(ctx)
    for l, (a, span) in cur.items():
        if not weaker_abort(old.get(l), a) and not ctx.excused(l):
            bad.append(viol("no_new_aborts", l.split("::", 1)[-1], "REX4", "abort", f"aborts when {a['abort'][:300]}; before: {(old.get(l) or {}).get('abort', 'never')[:300]}", span))
    return bad, n


SWALLOW = re.compile(r"^core::result::\{impl#\d+\}::(unwrap_or|unwrap_or_default|ok)$")
SOURCE_ERR = re.compile(r"Database>::Error|SaltEnv>::Error|DBError|SandboxDbError|ContextError|EVMError")


def no_swallowed_failures(ctx):
    """The number of places where a data-source failure is turned into a value does not grow beyond the reviewed ones."""
    with open(os.path.join(CONTRACTS, "swallow.json")) as fh:
        old = json.load(fh)
    cur = swallowed(ctx)
    bad = []
    for l, spans in cur.items():
        if len(spans) > len(old.get(l, [])) and not ctx.excused(l):
            bad.append(viol("no_swallowed_failures", l.split("::", 1)[-1], "*", "failure discarded", "a failing database or environment is treated as a value here", spans[-1]))
    return bad, len(ctx.F.fns)


def swallowed(ctx):
    out = {}
    for k, f in ctx.F.fns.items():
        p = k
        while p not in ctx.canon and "::" in p:
            p = p.rsplit("::", 1)[0]
        l = ctx.canon.get(p, p)
        for b in f["blocks"] if isinstance(f["blocks"], list) else f["blocks"].values():
            t = b.get("t") or b.get("term") or {}
            fo = t.get("f") if isinstance(t, dict) else None
            if isinstance(fo, dict) and SWALLOW.match(fo.get("key") or "") and any(SOURCE_ERR.search(str(x)) for x in t.get("at", ())):
                out.setdefault(l, []).append(t.get("sp") or "")
    return {l: sorted(v) for l, v in out.items()}


AMBIENT = re.compile(r"^(std::(time|env|fs|net|process|thread|random|os|sys|hash::random)::|std::io::(stdin|Read|Stdin)|core::sync::atomic::.*(load|fetch_|swap|compare_)|"
                     r"std::sync::|(rand|rand_core|rand_chacha|getrandom|fastrand|chrono|uuid|time|oorandom)::)")


def no_ambient_input(ctx):
    """No function of the crate reads a clock, the environment, files, the network, randomness or shared mutable memory."""
    from rules import body_calls
    bad, n = [], 0
    for k, f in ctx.F.fns.items():
        n += 1
        for c in sorted(body_calls({"blocks": f["blocks"], "promoted": f.get("promoted")}, set())):
            if AMBIENT.match(c):
                bad.append(viol("no_ambient_input", k, "*", c, "execution may depend only on its inputs", f.get("span")))
    return bad, n
