"""The properties: statement, anchors and the obligations / relational rules that decide each of them."""
from rules import Ob, OP, SPECS
import relations as R

ALL = SPECS
MEGA = SPECS[1:]
EQ = ["EQUIVALENCE"]
SRC = "crates/mega-evm/src/"


def M(ty, names, trait=None, mod=None, **kw):
    return [Ob(n, ty, trait, mod, **kw) for n in names.split()]


def Fn(names, mod=None, **kw):
    return [Ob(n, None, None, mod, **kw) for n in names.split()]


def OPS(codes, **kw):
    return [OP(c, **kw) for c in codes]


class Prop:
    def __init__(self, title, statement, over, text, why, files, mech, obs, rules=(), assume=(), tree=""):
        self.tree = tree
        self.title, self.statement, self.over, self.text, self.why = title, statement, over, text, why
        self.files, self.mech, self.obs, self.rules, self.assume = files, mech, obs, list(rules), list(assume)


PROPS = {}


def merged(obs):
    """One obligation per anchor: several mentions of an anchor own the union of their facts and versions."""
    out = {}
    for o in obs:
        p = out.get(o.id)
        if p is None:
            out[o.id] = o
            continue
        assert not (o.drop or p.drop) and (p.specs == ["-"]) == (o.specs == ["-"]), o.id
        p.sel = p.sel + o.sel if p.sel and o.sel else []
        p.specs = [x for x in SPECS if x in p.specs or x in o.specs] if p.specs != ["-"] else p.specs
        p.order = p.order or o.order
    return list(out.values())


def prop(pid, *a, **k):
    PROPS[pid] = Prop(*a, **k)
    PROPS[pid].obs = merged(PROPS[pid].obs)


CALLS = [0xF1, 0xF2, 0xF4, 0xFA]
CREATES = [0xF0, 0xF5]
LOGS = [0xA0, 0xA1, 0xA2, 0xA3, 0xA4]
VOLATILE = [0x31, 0x3B, 0x3C, 0x3F, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x47, 0x48, 0x49, 0x4A, 0x54]

# --------------------------------------------------------------------------------------------- forks
prop("F01", "Each protocol version enforces exactly its published per-transaction limits",
     "For every protocol version, the compute-gas, data-size, storage-update and state-growth limits of a transaction and the reduced compute-gas budgets after reading block data or the oracle are the published constants of that version (unlimited for the baseline version; state growth from the second version on; the larger oracle budget from the fifth on), and overriding one limit changes only that limit. Every stable version executes on the same underlying Optimism fork, is at least itself, and its textual name parses back to the same version.",
     ["configurations"], "all 7 protocol versions and every override of every limit",
     "the constants are consensus rules per version; tests sample single versions and single limits, and a wrong constant in an old version only shows when replaying old blocks",
     [SRC + "evm/limit.rs", SRC + "evm/spec.rs", SRC + "constants.rs"],
     [("limits by version", "EvmTxRuntimeLimits::from_spec and the constructors it uses"), ("version names and ordering", "MegaSpecId")],
     M("EvmTxRuntimeLimits", "from_spec no_limits equivalence mini_rex rex rex3 with_tx_data_size_limit with_tx_kv_updates_limit with_tx_compute_gas_limit with_tx_state_growth_limit with_block_env_access_compute_gas_limit with_oracle_access_compute_gas_limit")
     + M("MegaSpecId", "into_eth_spec into_op_spec is_enabled", specs="-") + M("MegaSpecId", "default", trait="Default", specs="-")
     + M("MegaSpecId", "from_str", trait="FromStr", specs="-") + M("str", "from", trait="From", mod="evm::spec", specs="-")
     + M("OpSpecId", "from", trait="From", mod="evm::spec", specs="-") + M("SpecId", "from", trait="From", mod="evm::spec", specs="-")
     + M("AdditionalLimit", "new reset_limits check_limit set_compute_gas_limit") + M("ComputeGasTracker", "new exceeds_limit") + M("DataSizeTracker", "new exceeds_limit") + M("KVUpdateCounter", "new exceeds_limit") + M("StateGrowthTracker", "new exceeds_limit")
     + M("VolatileDataAccessTracker", "new", specs="-") + M("MegaContext", "new new_with_context with_cfg with_tx_runtime_limits") + M("MegaEvm", "with_tx_runtime_limits") + M("BlockLimits", "to_evm_tx_runtime_limits with_tx_runtime_limits", specs="-")
     + M("MegaSpecId", "fmt", trait="Display", specs="-"),
     rules=[R.spec_limits, R.spec_order, R.spec_names, R.setters])

prop("F02", "Block timestamp selects the right protocol version",
     "For every fork schedule and timestamp, the protocol version in force is the one of the newest fork activated at that timestamp (baseline when none is), the roll-back fork selects the baseline again, and the reported fork and the reported version always agree. Fork schedules answer activation queries exactly as configured: inserting a fork replaces its entry, removing one makes it never active, and every Ethereum and Optimism fork the stack builds on is active from genesis.",
     ["configurations", "inputs"], "all fork schedules and timestamps",
     "tests try a few schedules; the order of the activation checks matters for schedules with several forks at one timestamp or out-of-order activation",
     [SRC + "block/hardfork.rs"],
     [("fork selection", "MegaHardforks::hardfork / spec_id default methods"), ("schedule", "MegaHardforkConfig")],
     [Ob(n, None, None, "hardfork::MegaHardforks", specs="-") for n in
      "hardfork spec_id first_hardfork_block is_mini_rex_active_at_timestamp is_mini_rex_1_active_at_timestamp is_mini_rex_2_active_at_timestamp is_rex_active_at_timestamp is_rex_1_active_at_timestamp is_rex_2_active_at_timestamp is_rex_3_active_at_timestamp is_rex_4_active_at_timestamp".split()]
     + M("MegaHardfork", "spec_id name", specs="-") + M("MegaHardfork", "from_str", trait="FromStr", specs="-") + M("MegaHardfork", "name", trait="Hardfork", specs="-")
     + M("MegaHardforkConfig", "new with_all_activated with without insert get", specs="-")
     + M("MegaHardforkConfig", "default", trait="Default", specs="-")
     + M("MegaHardforkConfig", "from", trait="From", specs="-")
     + M("MegaHardforkConfig", "ethereum_fork_activation", trait="EthereumHardforks", specs="-")
     + M("MegaHardforkConfig", "op_fork_activation", trait="OpHardforks", specs="-")
     + M("MegaHardforkConfig", "mega_fork_activation", trait="MegaHardforks", specs="-"),
     rules=[R.fork_agreement, R.fork_names, R.wrappers_forward])

prop("F03", "The baseline version behaves exactly like unmodified Optimism",
     "Under the baseline protocol version, every transaction validates, executes and finishes exactly as the upstream Optimism EVM would: no extra gas is charged, no resource is counted or limited, no volatile-data budget applies, no opcode is replaced, the same precompiles are available, and no address is treated specially.",
     ["programs", "inputs"], "all transactions and contracts executed under the baseline version",
     "equivalence must hold for every program; tests compare a handful of transactions",
     [SRC + "evm/execution.rs", SRC + "evm/instructions.rs", SRC + "evm/host.rs", SRC + "evm/precompiles.rs", SRC + "limit/mod.rs"],
     [("version gates", "every `spec.is_enabled(..)` test, specialised to the baseline version")],
     OPS(range(256), specs=EQ)
     + M("MegaEvm", "frame_init frame_run frame_return_result", trait="EvmTr", specs=EQ)
     + M("MegaEvm", "before_frame_run after_frame_run after_frame_run_instructions", specs=EQ)
     + M("MegaHandler", "before_run before_execution", specs=EQ)
     + M("MegaHandler", "validate execution last_frame_result execution_result reward_beneficiary pre_execution refund reimburse_caller validate_env validate_against_state_and_deduct_caller catch_error", trait="Handler", specs=EQ)
     + M("MegaContext", "sload sstore tload tstore log balance selfdestruct load_account_delegated load_account_code load_account_code_hash", trait="Host", specs=EQ)
     + M("MegaContext", "with_cfg", specs=EQ)
     + M("MegaPrecompiles", "new_with_spec", specs=EQ)
     + M("MegaEvm", "inspect_frame_init inspect_frame_run", trait="InspectorEvmTr", specs=EQ) + M("MegaHandler", "inspect_execution inspect_run_without_catch_error", trait="InspectorHandler", specs=EQ) + M("MegaHandler", "run_without_catch_error run_system_call", trait="Handler", specs=EQ)
     + M("MegaContext", "on_new_tx", specs=EQ) + M("MegaPrecompiles", "run set_spec contains", trait="PrecompileProvider", specs=EQ) + M("PrecompilesMap", "run set_spec", trait="PrecompileProvider", specs=EQ) + M("EvmTxRuntimeLimits", "from_spec equivalence no_limits", specs=EQ)
     + M("MegaSpecId", "into_eth_spec into_op_spec", specs="-") + Fn("is_deposit_like_transaction", mod="system::tx", specs=EQ),
     rules=[R.baseline_inert])

# --------------------------------------------------------------------------------------------- opcodes
prop("O01", "Every opcode runs its standard behaviour and its cost counts as compute gas",
     "In every protocol version after the baseline, each of the 256 opcodes performs its standard EVM action exactly once with unchanged operands, and the gas that action consumed (excluding gas handed to a sub-call and excluding storage gas) is added to the transaction's compute-gas usage; when that exceeds the compute budget in force the frame stops with out-of-gas. Self-destruct is an invalid instruction before the third minor version (REX2) and standard and metered afterwards.",
     ["programs", "inputs"], "all programs, all 256 opcodes, all versions after the baseline",
     "a single opcode slot wired to the wrong or an unmetered handler only shows in programs using that opcode under that version",
     [SRC + "evm/instructions.rs"],
     [("instruction tables", "mini_rex/rex/rex2/rex3::instruction_table"), ("metering wrapper", "compute_gas_ext")],
     OPS([c for c in range(256) if c not in CALLS + CREATES + LOGS + VOLATILE + [0x55]], specs=MEGA)
     + OPS(CALLS + CREATES + LOGS + VOLATILE + [0x55], specs=MEGA, sel=[r"call AdditionalLimit::record_compute_gas", r"^call (contract|host|block_info|tx_info|system)::"])
     + M("AdditionalLimit", "record_compute_gas") + M("ComputeGasTracker", "new reset record_gas_used current_gas_used exceeds_limit")
     + M("AdditionalLimit", "check_limit") + OPS(CALLS + CREATES + LOGS + VOLATILE + [0x55], specs=MEGA, sel=[r"Interpreter::halt"])
     + M("MegaInstructions", "instruction_table", trait="InstructionProvider", specs="-") + M("MegaEvm", "ctx_instructions", trait="EvmTr", specs="-") + M("AdditionalLimit", "get_usage"),
     rules=[R.opcode_metering])

prop("O02", "Sub-calls and creations receive at most 98/100 of the remaining gas",
     "After the baseline version, a call or contract creation made by a contract forwards at most 98/100 of the gas that remained after paying for the call itself, the value-transfer stipend is never reduced by this rule, and the gas withheld is handed back to the calling frame; CALL, CREATE and CREATE2 follow the rule from the first version on, CALLCODE, DELEGATECALL and STATICCALL from the second (REX) on.",
     ["programs", "inputs"], "all call and create sites, gas amounts and versions",
     "depends on gas amounts, value transfers and opcode kind; tests sample a few depths",
     [SRC + "evm/instructions.rs"],
     [("gas forwarding", "forward_gas_ext"), ("CALL/CREATE wrappers", "forward_gas_ext::{call,call_code,delegate_call,static_call,create,create2}")],
     OPS(CALLS + CREATES, specs=MEGA, sel=[r"^state ", r"call Gas::erase_cost", r"^call contract::"]))

prop("O03", "Storage growth pays storage gas scaled by its bucket",
     "After the baseline version: setting an originally and currently zero storage slot to a non-zero value, transferring value to an empty account, creating a contract, emitting a log (per topic and per data byte) and depositing code (per byte) each charge the version's storage gas; slot, account and creation charges are the version's base price scaled by the bucket capacity of the written slot or the touched account (base times multiplier in the first version, base times multiplier minus one from the second on, so free at minimum capacity). If the charge cannot be paid the frame stops out of gas, an unavailable bucket capacity stops it with a fatal error, and nothing is charged for other writes, transfers or empty logs.",
     ["programs", "inputs", "configurations"], "all writes, transfers, creations and logs, all bucket capacities, all versions",
     "prices depend on external bucket capacities, slot history and account emptiness; the tests that use them sample few combinations",
     [SRC + "evm/instructions.rs", SRC + "external/gas.rs", SRC + "evm/host.rs", SRC + "evm/execution.rs"],
     [("charging sites", "storage_gas_ext::{sstore,call,call_code,create,log}"), ("prices", "DynamicGasCost"), ("code deposit", "MegaEvm::after_frame_run_instructions")],
     OPS(CALLS + CREATES + LOGS + [0x55], specs=MEGA, sel=[r"Gas::record_cost", r"inspect_(account|storage)", r"Interpreter::halt", r"load_account", r"^call (contract|host)::"])
     + M("DynamicGasCost", "new sstore_set_gas new_account_gas create_contract_gas load_bucket_cost_multiplier")
     + M("MegaContext", "sstore_set_storage_gas new_account_storage_gas create_contract_storage_gas", trait="HostExt")
     + M("MegaEvm", "after_frame_run_instructions", sel=[r"^ret", r"Gas::record_cost", r"^state "])
     + M("DynamicGasCost", "on_new_block reset get_bucket_ids") + M("EmptyExternalEnv", "bucket_id_for_account bucket_id_for_slot get_bucket_capacity", trait="SaltEnv", specs="-") + M("Journal", "inspect_account_delegated inspect_storage", trait="JournalInspectTr", specs="-"),
     rules=[R.storage_prices])

prop("O04", "Looking at state for pricing never changes what execution observes",
     "Reading an account or slot to price a storage write or a transfer never warms it, never touches it and never changes a journalled value; the lookup reports the account or slot value a following execution step would see, for a slot that of the contract itself and for an account that of its one-step delegation target if it has one; database errors are returned. Peeking at the operand stack leaves it unchanged and reports the requested position counted from the top, or nothing when there is none.",
     ["programs", "histories"], "all journal states and all lookups",
     "warmth leaks only show as a gas difference in a later access of the same slot",
     [SRC + "evm/instructions.rs"],
     [("journal peeks", "JournalInspectTr for Journal"), ("stack peek", "StackInspectTr for Stack")],
     M("Journal", "inspect_account_delegated inspect_storage", trait="JournalInspectTr", specs="-")
     + M("Stack", "inspect", trait="StackInspectTr", specs="-")
     + OPS(CALLS + CREATES + [0x55], specs=MEGA, sel=[r"inspect_(account|storage)", r"load_account|sload|balance", r"StackInspectTr"]) + M("StateGrowthTracker", "record_call") + M("MegaHandler", "before_execution"),
     rules=[R.inspect_pure])

# --------------------------------------------------------------------------------------------- limits
prop("L01", "Exceeding any resource limit stops the transaction and stays exceeded",
     "Whenever usage is compared with the limits (after logs, slot writes, compute gas, frame start, contract creation and frame end) the order is data size, storage updates, compute gas, state growth; usage strictly above a limit stops execution, and the first limit found exceeded is reported with its actual usage and bound and cannot be cleared or replaced by any later event of the same transaction. A frame stopped this way ends out of gas, and an out-of-gas transaction is reported as a limit halt exactly when some limit was exceeded (as a volatile-data halt when its compute usage is above the volatile-data budget).",
     ["programs", "histories"], "all event sequences within a transaction",
     "stickiness and first-exceeded reporting depend on event order; tests exceed one limit at a time",
     [SRC + "limit/mod.rs", SRC + "evm/result.rs", SRC + "evm/execution.rs"],
     [("check", "AdditionalLimit::check_limit"), ("halt mapping", "MegaHandler::execution_result, AdditionalLimitResult::maybe_halt_reason")],
     M("AdditionalLimit", "check_limit on_log on_sstore record_compute_gas get_usage is_exceeding_limit_halt is_exceeding_limit_result")
     + M("AdditionalLimitResult", "exceeded_limit within_limit maybe_halt_reason")
     + M("AdditionalLimitResult", "default", trait="Default", specs="-")
     + M("LimitUsage", "default", trait="Default", specs="-")
     + M("DataSizeTracker", "exceeds_limit current_size") + M("KVUpdateCounter", "exceeds_limit current_count")
     + M("ComputeGasTracker", "exceeds_limit current_gas_used") + M("StateGrowthTracker", "exceeds_limit current_growth")
     + Fn("create_exceeding_interpreter_result create_exceeding_limit_frame_result mark_frame_result_as_exceeding_limit mark_interpreter_result_as_exceeding_limit", mod="limit")
     + M("MegaHandler", "execution_result", trait="Handler")
     + M("MegaEvm", "before_frame_run")
     + M("MegaEvm", "after_frame_run after_frame_run_instructions", sel=[r"AdditionalLimit", r"^state "])
     + M("AdditionalLimit", "before_frame_init after_frame_init_on_frame after_create_frame_run before_frame_return_result set_compute_gas_limit reset") + M("MegaEvm", "frame_init frame_return_result", trait="EvmTr", sel=[r"AdditionalLimit", r"exceeding", r"^ret"])
     + M("MegaHandler", "last_frame_result execution", trait="Handler") + M("MegaHandler", "inspect_execution", trait="InspectorHandler") + OPS(LOGS + [0x55], specs=MEGA, sel=[r"AdditionalLimit|StateGrowth|Interpreter::halt"]),
     rules=[R.check_order])

prop("L02", "Work of reverted frames is discarded, persistent work is kept",
     "Every call or creation frame that starts is matched by exactly one frame end; a successful frame passes its data size, storage-update count and state growth on to its parent, a failed or reverted one takes exactly what was recorded inside it (including its successful sub-frames) out of the totals, and what was recorded before the first frame (transaction data, sender and authority updates) is always kept, as is compute gas. Frames answered without running (by a precompile, an immediate failure, a limit stop or a tracer) keep the bookkeeping balanced.",
     ["programs", "histories"], "all call trees and outcomes",
     "needs arbitrary nesting of success, revert, halt and interception",
     [SRC + "limit/mod.rs", SRC + "limit/data_size.rs", SRC + "limit/kv_update.rs", SRC + "limit/state_growth.rs", SRC + "evm/execution.rs"],
     [("frame push/pop", "record_call/record_create/end_frame of the three trackers"), ("frame hooks", "MegaEvm frame_init / frame_return_result / last_frame_result")],
     M("AdditionalLimit", "before_frame_init before_frame_return_result on_inspector_intercept after_frame_init_on_frame after_create_frame_run")
     + M("DataSizeTracker", "end_frame on_inspector_intercept update_current_frame_discardable_size record_call record_create")
     + M("KVUpdateCounter", "new_frame end_frame on_inspector_intercept update_current_frame_count record_call record_create")
     + M("StateGrowthTracker", "new_frame end_frame on_inspector_intercept update_current_frame_discardable_size record_call record_create")
     + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"^call AdditionalLimit", r"^call EvmTr"])
     + M("MegaEvm", "frame_return_result", trait="EvmTr")
     + M("MegaEvm", "inspect_frame_init", trait="InspectorEvmTr", sel=[r"on_inspector_intercept", r"frame_init"])
     + M("MegaHandler", "last_frame_result", trait="Handler", sel=[r"^call AdditionalLimit", r"^at ", r"^call Handler::last"])
     + Fn("gen_oog_frame_result", mod="evm::execution")
     + M("DataSizeTracker", "record_tx_data record_eip7702_account_info_update record_account_info_update record_created_account record_created_contract_code record_log record_sstore") + M("KVUpdateCounter", "record_eip7702_account_info_update record_account_info_update record_created_account record_sstore") + M("StateGrowthTracker", "on_sstore") + M("AdditionalLimit", "before_tx_start get_usage")
     + M("DataSizeTracker", "current_size") + M("KVUpdateCounter", "current_count") + M("StateGrowthTracker", "current_growth"),
     rules=[R.frame_symmetry])

prop("L03", "Data size and storage updates are counted by the published formula",
     "A transaction's data size is 110 bytes plus its calldata, its access list and 101 bytes per authorization, plus 40 bytes for each account update (sender, each recoverable authority, the recipient of a value transfer, the created account, and the calling contract when it transfers value or creates and its own account was not already counted at its frame's start), 40 bytes per changed slot, 32 bytes per log topic plus the log data, and the deployed code; its storage-update count grows by one for each such account or slot. A slot counts when it first moves away from its original value and is given back when it returns to it.",
     ["programs", "inputs"], "all transactions and event sequences",
     "the totals depend on combinations of events; off-by-one or missed-refund errors need specific write sequences",
     [SRC + "limit/data_size.rs", SRC + "limit/kv_update.rs", SRC + "limit/mod.rs"],
     [("data size", "DataSizeTracker::record_*"), ("storage updates", "KVUpdateCounter::record_*"), ("transaction start", "AdditionalLimit::before_tx_start")],
     M("DataSizeTracker", "new record_tx_data record_eip7702_account_info_update record_account_info_update record_created_account record_created_contract_code record_log record_sstore record_call record_create current_frame parent_frame update_current_frame_discardable_size")
     + M("FrameInfo", "target_address", mod="data_size")
     + M("KVUpdateCounter", "new record_eip7702_account_info_update record_account_info_update record_created_account record_sstore record_call record_create parent_frame update_current_frame_count")
     + M("AdditionalLimit", "before_tx_start before_frame_init after_frame_init_on_frame after_create_frame_run on_log on_sstore")
     + OPS(LOGS + [0x55], specs=MEGA, sel=[r"AdditionalLimit::on_(log|sstore)"])
     + M("DataSizeTracker", "current_size end_frame") + M("KVUpdateCounter", "current_count new_frame end_frame") + M("AdditionalLimit", "get_usage") + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"^call AdditionalLimit"]) + M("MegaHandler", "before_execution", sel=[r"AdditionalLimit"]) + M("MegaHandler", "pre_execution", trait="Handler", sel=[r"AdditionalLimit"]))

prop("L04", "State growth counts net new accounts and slots",
     "State growth increases by one for each contract creation that starts, for each value transfer to an empty account and for each slot that goes from zero (originally and currently) to non-zero, decreases by one when such a slot is cleared again in the same transaction, is taken back with the frame that caused it when that frame fails, and is never reported negative; it is limited from the second version (REX) on.",
     ["programs", "histories"], "all sequences of writes, transfers and creations",
     "net counting over reverts and re-clears needs specific histories",
     [SRC + "limit/state_growth.rs", SRC + "evm/instructions.rs"],
     [("tracker", "StateGrowthTracker"), ("slot events", "storage_gas_ext::sstore")],
     M("StateGrowthTracker", "new reset current_growth exceeds_limit on_sstore record_call record_create new_frame end_frame update_current_frame_discardable_size")
     + OPS([0x55], specs=MEGA, sel=[r"StateGrowthTracker"])
     + M("AdditionalLimit", "before_frame_init", sel=[r"StateGrowthTracker"])
     + M("StateGrowthTracker", "on_inspector_intercept") + M("AdditionalLimit", "get_usage check_limit") + M("EvmTxRuntimeLimits", "from_spec")
     + M("AdditionalLimit", "before_frame_return_result on_inspector_intercept reset after_frame_init_on_frame", sel=[r"StateGrowthTracker"]))

prop("L05", "No resource usage leaks from one transaction or block to the next",
     "Before any transaction runs, whether traced, replayed or a system call, all usage counters, the exceeded mark, rescued gas and volatile-access marks start from zero and a lowered compute budget is restored (from REX1 on; earlier versions deliberately keep it), so a transaction's outcome does not depend on which transactions ran before it on the same instance; cached bucket prices are dropped whenever the block changes.",
     ["histories"], "all sequences of transactions and entry points on one instance",
     "leaks need a particular previous transaction and entry point",
     [SRC + "evm/context.rs", SRC + "limit/mod.rs", SRC + "access/tracker.rs", SRC + "evm/execution.rs"],
     [("transaction start", "MegaContext::on_new_tx"), ("resets", "AdditionalLimit::reset, trackers' reset, VolatileDataAccessTracker::reset"), ("entry points", "MegaHandler::before_run")],
     M("MegaContext", "on_new_tx on_new_block reset_volatile_data_access")
     + M("MegaContext", "set_tx set_block", trait="ContextSetters")
     + M("AdditionalLimit", "reset reset_limits new before_tx_start") + M("DataSizeTracker", "reset") + M("KVUpdateCounter", "reset") + M("StateGrowthTracker", "reset") + M("ComputeGasTracker", "reset")
     + M("VolatileDataAccessTracker", "reset new") + M("DynamicGasCost", "reset on_new_block")
     + M("MegaHandler", "before_run", sel=[r"on_new_tx", r"^ret"])
     + M("MegaHandler", "run_system_call run_without_catch_error", trait="Handler") + M("MegaHandler", "inspect_run_without_catch_error", trait="InspectorHandler")
     + M("MegaHandler", "before_run") + M("MegaEvm", "execute_transaction inspect_transaction") + M("MegaEvm", "transact_one replay", trait="ExecuteEvm") + M("MegaEvm", "inspect_one_tx", trait="InspectEvm") + M("MegaEvm", "transact_system_call_with_caller", trait="SystemCallEvm") + M("MegaEvm", "transact_raw transact_system_call", trait="Evm") + M("MegaContext", "with_block with_tx")
     + M("MegaContext", "with_tx with_block") + M("MegaEvm", "set_block", trait="ExecuteEvm") + M("MegaEvm", "transact_raw transact_system_call", trait="Evm"),
     rules=[R.reset_restores_new])

prop("L06", "Gas left when a limit stops a transaction is returned to the sender once",
     "When a resource limit stops a transaction, the unused gas of every frame that ends after the limit was exceeded is set aside exactly once and given back to the sender at the end, so the sender pays for work done and not for the limit; when no limit was exceeded nothing is set aside, and the top-level frame, which is reported twice when it had sub-frames, counts once.",
     ["programs", "inputs"], "all limit stops at every call depth",
     "needs limit stops at particular depths and gas amounts",
     [SRC + "limit/mod.rs", SRC + "evm/execution.rs"],
     [("rescue", "AdditionalLimit::rescue_gas, before_frame_return_result, MegaHandler::last_frame_result")],
     M("AdditionalLimit", "rescue_gas before_frame_return_result is_exceeding_limit_result")
     + M("MegaHandler", "last_frame_result", trait="Handler")
     + M("MegaEvm", "frame_return_result", trait="EvmTr")
     + Fn("create_exceeding_interpreter_result create_exceeding_limit_frame_result mark_frame_result_as_exceeding_limit mark_interpreter_result_as_exceeding_limit", mod="limit")
     + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"rescue", r"exceeding", r"^call AdditionalLimit::before_frame_init"])
     + M("MegaEvm", "before_frame_run after_frame_run after_frame_run_instructions")
     + Fn("gen_oog_frame_result", mod="evm::execution")
     + M("AdditionalLimit", "reset check_limit") + M("MegaHandler", "execution refund reimburse_caller", trait="Handler") + M("MegaHandler", "inspect_execution", trait="InspectorHandler")
     + M("AdditionalLimit", "is_exceeding_limit_halt") + M("MegaHandler", "execution_result", trait="Handler"))

# --------------------------------------------------------------------------------------------- volatile data
prop("V01", "Touching volatile data lowers the compute budget and never raises it",
     "Reading any block field (number, timestamp, coinbase, difficulty/randomness, gas limit, base fee, blob base fee, block hash, blob hash) records exactly that access; looking up the beneficiary's account (balance, code, code hash, a call to it) or having it as sender or recipient of the transaction records a beneficiary access. After the baseline version each such opcode lowers the compute-gas budget to the matching limit when it completes; several accesses leave the smallest limit in force, no access within a transaction raises the budget, and an access in a sub-call constrains the whole transaction. The recorded accesses and the budget are visible to the caller.",
     ["programs", "histories"], "all programs and access orders",
     "the order and combination of accesses across frames matters",
     [SRC + "access/tracker.rs", SRC + "access/volatile.rs", SRC + "evm/host.rs", SRC + "evm/context.rs", SRC + "evm/instructions.rs"],
     [("tracker", "VolatileDataAccessTracker"), ("marking hosts", "Host for MegaContext"), ("detention", "volatile_data_ext")],
     M("VolatileDataAccessTracker", "new mark_block_env_accessed mark_beneficiary_balance_accessed check_and_mark_oracle_access apply_or_create_limit accessed get_compute_gas_limit get_block_env_accesses get_volatile_data_accessed get_volatile_data_info has_accessed_beneficiary_balance has_accessed_oracle", specs="-")
     + M("VolatileDataAccess", "block_env_only count_accessed count_block_env_accessed has_beneficiary_balance_access has_block_env_access has_oracle_access raw", specs="-")
     + M("VolatileDataAccess", "default", trait="Default", specs="-")
     + M("MegaContext", "basefee beneficiary blob_gasprice blob_hash block_hash block_number chain_id caller difficulty effective_gas_price gas_limit prevrandao timestamp balance load_account_delegated load_account_code load_account_code_hash selfdestruct max_initcode_size", trait="Host")
     + M("MegaContext", "check_and_mark_beneficiary_balance_access check_tx_beneficiary_access mark_block_env_accessed get_block_env_accesses")
     + M("AdditionalLimit", "set_compute_gas_limit")
     + OPS([c for c in VOLATILE if c not in (0x54,)], specs=MEGA)
     + M("MegaContext", "set_tx", trait="ContextSetters")
     + OPS([0x54], specs=MEGA) + M("MegaContext", "new new_with_context with_tx_runtime_limits with_tx on_new_tx reset_volatile_data_access") + M("AdditionalLimit", "new reset reset_limits record_compute_gas") + M("ComputeGasTracker", "exceeds_limit") + M("EvmTxRuntimeLimits", "from_spec")
     + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"VolatileData|set_compute_gas_limit"]) + M("VolatileDataAccessTracker", "reset", specs="-"),
     rules=[R.volatile_bits])

prop("V02", "Oracle reads come from the oracle and are budgeted, except for system senders",
     "After the baseline version, reading a slot of the oracle contract returns the external oracle's value when it has one and the on-chain value otherwise, and always costs a cold access; other contracts' storage is never redirected. Before the fifth version (REX3) calling the oracle contract lowers the compute budget to the oracle limit unless the calling account is the system sender; from then on reading its storage does, unless the transaction's sender is the system sender. From REX2 on, every hint call to the oracle contract is forwarded to the oracle with its caller, topic and data unmodified.",
     ["programs", "inputs"], "all callers, slots and versions",
     "the tests that have an oracle are few and sample single slots",
     [SRC + "evm/host.rs", SRC + "evm/execution.rs", SRC + "access/tracker.rs", SRC + "external/oracle.rs"],
     [("redirected read", "Host::sload for MegaContext"), ("call detention and hints", "MegaEvm::frame_init")],
     M("MegaContext", "sload", trait="Host") + M("VolatileDataAccessTracker", "check_and_mark_oracle_access apply_or_create_limit has_accessed_oracle")
     + OPS([0x54], specs=MEGA)
     + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"OracleEnv|VolatileData|set_compute_gas_limit|oracle"])
     + M("EmptyExternalEnv", "get_oracle_storage", trait="OracleEnv", specs="-")
     + M("AdditionalLimit", "set_compute_gas_limit") + M("EvmTxRuntimeLimits", "from_spec") + [Ob("on_hint", None, None, "OracleEnv", specs="-")]
     + M("MegaContext", "with_external_envs") + M("EmptyExternalEnv", "external_envs", trait="ExternalEnvFactory", specs="-"),
     rules=[R.wrappers_forward])

# --------------------------------------------------------------------------------------------- transaction pipeline
prop("T01", "Transactions pay the right intrinsic and floor gas before running",
     "After the baseline version a transaction's up-front gas is the standard intrinsic gas plus 40 storage gas per calldata token, plus the fixed storage intrinsic from REX on; a gas limit below that is rejected before any state change. The bucket-scaled price of the account it creates, or of the empty account it transfers value to, is added on top, and a gas limit below this total ends the transaction out of gas with all its gas spent and without running anything. The calldata floor is raised by 100 per token. Only the standard intrinsic part counts as compute gas before execution starts, and the top-level frame gets exactly the rest.",
     ["inputs", "configurations"], "all transactions, gas limits and versions",
     "boundary gas limits and version combinations are not sampled densely by tests",
     [SRC + "evm/execution.rs"],
     [("validation", "MegaHandler::validate, before_execution")],
     M("MegaHandler", "validate validate_env validate_against_state_and_deduct_caller pre_execution", trait="Handler")
     + M("MegaHandler", "before_execution")
     + M("MegaHandler", "execution", trait="Handler") + M("MegaHandler", "inspect_execution", trait="InspectorHandler")
     + M("MegaContext", "new_account_storage_gas create_contract_storage_gas", trait="HostExt")
     + M("MegaHandler", "run_without_catch_error", trait="Handler") + M("MegaHandler", "inspect_run_without_catch_error", trait="InspectorHandler") + M("DynamicGasCost", "new_account_gas create_contract_gas") + M("AdditionalLimit", "record_compute_gas before_tx_start"))

prop("T02", "System-sender transactions are handled like deposits",
     "From the first version after the baseline, a legacy transaction sent by the system address to a whitelisted system contract is executed without fees as if it were a deposit (zero gas price, the system source hash set), every other transaction from the system address (another target, a creation, another transaction type) is rejected before it runs, and transactions from other senders are untouched. A transaction counts as deposit-like exactly when it is a real deposit or such a system transaction.",
     ["inputs"], "all senders, targets and transaction kinds",
     "tests sample single targets",
     [SRC + "system/tx.rs", SRC + "evm/execution.rs"],
     [("classification", "system::tx"), ("conversion", "MegaHandler::before_run")],
     Fn("check_if_mega_system_transaction is_deposit_like_transaction is_mega_system_transaction sent_from_mega_system_address", mod="system::tx")
     + M("MegaHandler", "before_run")
     + M("MegaHandler", "validate_env validate_against_state_and_deduct_caller reward_beneficiary reimburse_caller refund catch_error last_frame_result execution_result", trait="Handler") + M("MegaHandler", "run_without_catch_error", trait="Handler") + M("MegaHandler", "inspect_run_without_catch_error", trait="InspectorHandler"))

prop("T03", "Tracing a transaction never changes its result",
     "Executing with an inspector attached performs the same validation, metering, limit checks, frame bookkeeping, storage-gas charging and state changes as executing without one, in the same order; only inspector callbacks are added, and an inspector that intercepts a frame leaves the bookkeeping balanced.",
     ["programs", "inputs", "configurations"], "all transactions, with and without inspector",
     "parity must hold for every program; tests compare few",
     [SRC + "evm/execution.rs", SRC + "evm/mod.rs", SRC + "evm/interfaces.rs"],
     [("sibling pairs", "frame_run/inspect_frame_run, frame_init/inspect_frame_init, execution/inspect_execution, run_without_catch_error/inspect_run_without_catch_error")],
     M("MegaEvm", "inspect_frame_init inspect_frame_run", trait="InspectorEvmTr") + M("MegaEvm", "frame_run", trait="EvmTr")
     + M("MegaHandler", "inspect_run_without_catch_error inspect_execution", trait="InspectorHandler")
     + M("MegaHandler", "run_without_catch_error execution", trait="Handler")
     + M("MegaEvm", "execute_transaction inspect_transaction with_inspector without_inspector")
     + M("MegaEvm", "inspect_one_tx set_inspector", trait="InspectEvm") + M("MegaEvm", "set_inspector_enabled transact_raw", trait="Evm")
     + M("AdditionalLimit", "on_inspector_intercept") + M("DataSizeTracker", "on_inspector_intercept") + M("KVUpdateCounter", "on_inspector_intercept") + M("StateGrowthTracker", "on_inspector_intercept") + M("MegaEvm", "before_frame_run after_frame_run after_frame_run_instructions") + M("MegaEvm", "transact_one", trait="ExecuteEvm") + M("MegaEvm", "frame_init frame_return_result", trait="EvmTr"),
     rules=[R.inspector_parity])

prop("T04", "Reported outcomes carry the real result, state and usage",
     "The outcome of a transaction contains the execution result and state changes of that transaction together with the data size, storage updates, compute gas and state growth it used, and limit halts name the exceeded limit; halt reasons convert to and from the upstream ones without mixing them up. Errors discard the transaction's state and are passed on unchanged, with deposit-like failures handled as upstream does.",
     ["inputs", "histories"], "all transactions and error kinds",
     "requires every halt kind and error path",
     [SRC + "evm/mod.rs", SRC + "evm/interfaces.rs", SRC + "evm/result.rs", SRC + "evm/execution.rs"],
     [("entry points", "MegaEvm::execute_transaction, Evm/ExecuteEvm/SystemCallEvm impls"), ("halt mapping", "MegaHaltReason conversions")],
     M("MegaEvm", "execute_transaction inspect_transaction")
     + M("MegaEvm", "transact_raw transact_system_call finish block chain_id", trait="Evm")
     + M("MegaEvm", "transact_one finalize replay set_block", trait="ExecuteEvm") + M("MegaEvm", "commit", trait="ExecuteCommitEvm")
     + M("MegaEvm", "transact_system_call_with_caller", trait="SystemCallEvm")
     + M("MegaHandler", "catch_error execution_result reward_beneficiary refund reimburse_caller run_system_call run_without_catch_error", trait="Handler")
     + M("AdditionalLimitResult", "maybe_halt_reason") + M("AdditionalLimit", "get_usage")
     + M("HaltReason", "try_from", trait="TryFrom", mod="evm::result", specs="-")
     + M("MegaHaltReason", "from", trait="From", targ="HaltReason", specs="-") + M("MegaHaltReason", "from", trait="From", targ="OpHaltReason", specs="-")
     + M("MegaContext", "generated_data_size kv_update_count disable_beneficiary")
     + M("DataSizeTracker", "current_size") + M("KVUpdateCounter", "current_count") + M("ComputeGasTracker", "current_gas_used") + M("StateGrowthTracker", "current_growth") + M("MegaEvm", "inspect_one_tx", trait="InspectEvm") + M("AdditionalLimitResult", "exceeded_limit within_limit") + M("AdditionalLimit", "is_exceeding_limit_halt") + M("MegaHandler", "inspect_run_without_catch_error", trait="InspectorHandler"))

prop("T05", "Configuration reaches the execution unchanged",
     "An EVM built from a database, environment, version, external data source, limits and precompile overrides uses exactly those: the version fixes opcode table, precompiles, contract-size caps (unless the configuration sets its own) and default limits (custom limits win), each builder step changes only what it names, the chain id and block values are those given, and rebuilding with another block, transaction, database, external source or inspector keeps everything else.",
     ["configurations"], "all configurations and builder orders",
     "each builder step must preserve all the others",
     [SRC + "evm/context.rs", SRC + "evm/factory.rs", SRC + "evm/mod.rs", SRC + "block/factory.rs"],
     [("context builders", "MegaContext::with_*"), ("factories", "MegaEvmFactory, MegaBlockExecutorFactory")],
     M("MegaContext", "new new_with_context with_cfg with_block with_chain with_db with_external_envs with_sandbox_disabled with_tx with_tx_runtime_limits mega_spec set_sandbox_disabled is_sandbox_disabled disable_beneficiary accessed_bucket_ids into_inner")
     + M("MegaContext", "block cfg chain chain_mut db db_mut error journal journal_mut journal_ref local local_mut tx tx_journal_mut tx_local_mut", trait="ContextTr", specs="-")
     + M("MegaContext", "spec_id additional_limit volatile_data_tracker", trait="HostExt", specs="-")
     + M("CfgEnv", "into_megaeth_cfg", trait="IntoMegaethCfgEnv", specs="-") + M("CfgEnv", "into_op_cfg", trait="IntoOpCfgEnv", specs="-")
     + M("MegaContext", "default", trait="Default", specs="-") + M("MegaEvmFactory", "default", trait="Default", specs="-") + M("ExternalEnvs", "default", trait="Default", specs="-")
     + M("MegaEvmFactory", "new with_dyn_precompiles_builder with_external_env_factory", specs="-")
     + M("MegaEvmFactory", "create_evm create_evm_with_inspector", trait="EvmFactory")
     + M("MegaEvm", "new with_inspector with_tx_runtime_limits with_dyn_precompiles without_inspector into_inner into_journaled_state journaled_state journaled_state_mut block_env_mut block_env_ref get_accessed_block_hashes get_accessed_bucket_ids")
     + M("MegaEvm", "ctx ctx_ref ctx_instructions ctx_precompiles frame_stack", trait="EvmTr", specs="-")
     + M("MegaEvm", "ctx_inspector ctx_inspector_frame ctx_inspector_frame_instructions inspector", trait="InspectorEvmTr", specs="-")
     + M("MegaEvm", "components components_mut", trait="Evm", specs="-")
     + M("MegaContext", "set_tx set_block", trait="ContextSetters") + M("MegaPrecompiles", "new_with_spec") + M("MegaPrecompiles", "set_spec", trait="PrecompileProvider") + M("PrecompilesMap", "set_spec", trait="PrecompileProvider") + M("EvmTxRuntimeLimits", "from_spec") + M("MegaInstructions", "instruction_table", trait="InstructionProvider", specs="-") + M("MegaContext", "deref", trait="Deref", specs="-") + M("MegaContext", "deref_mut", trait="DerefMut", specs="-") + M("MegaEvm", "deref", trait="Deref", specs="-") + M("MegaEvm", "deref_mut", trait="DerefMut", specs="-") + M("MegaHandler", "new", specs="-"),
     rules=[])

prop("T06", "The precompile set of each version is complete and priced as published",
     "Each version offers the Optimism precompiles of its fork; after the baseline version point evaluation costs 100,000 gas (and fails out of gas below that) and modular exponentiation follows the newer repriced and size-limited rules. Configured dynamic precompiles replace the one at their address and nothing else, the set follows the version when it changes, results and failures are passed on as upstream reports them, and the gas a precompile spends counts as compute gas after the baseline version.",
     ["inputs", "configurations"], "all precompile calls and versions",
     "tests call a few precompiles with a few inputs",
     [SRC + "evm/precompiles.rs"],
     [("sets", "precompiles::{mini_rex,rex}"), ("execution", "PrecompileProvider for MegaPrecompiles and PrecompilesMap")],
     Fn("mini_rex rex", mod="evm::precompiles", specs="-") + M("MegaPrecompiles", "new_with_spec precompiles")
     + M("MegaPrecompiles", "default", trait="Default", specs="-")
     + M("MegaPrecompiles", "contains run set_spec warm_addresses", trait="PrecompileProvider")
     + M("PrecompilesMap", "contains run set_spec warm_addresses", trait="PrecompileProvider")
     + M("MegaEvm", "with_dyn_precompiles")
     + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"record_compute_gas|[Pp]recompile|^call EvmTr"]) + M("MegaEvm", "new") + M("MegaEvmFactory", "create_evm create_evm_with_inspector", trait="EvmFactory") + M("MegaContext", "with_cfg"))

prop("T07", "Storage pricing is stable within a block and follows the bucket capacities",
     "The multiplier of a bucket is its capacity divided (rounding down) by the minimum bucket capacity, read from the external source at most once per bucket per block; prices computed twice for one bucket in a block agree, all buckets touched for pricing in the block are reported, errors of the external source are reported and never cached, a new block forgets all multipliers, and accounts and slots map to the buckets the external source says.",
     ["histories", "fault_sequences"], "all access orders and external-source failures",
     "needs repeated lookups across transactions and failing lookups",
     [SRC + "external/gas.rs", SRC + "external/salt.rs", SRC + "evm/context.rs"],
     [("cache", "DynamicGasCost"), ("block change", "MegaContext::with_block, set_block, on_new_block")],
     M("DynamicGasCost", "new load_bucket_cost_multiplier sstore_set_gas new_account_gas create_contract_gas get_bucket_ids reset on_new_block")
     + M("EmptyExternalEnv", "bucket_id_for_account bucket_id_for_slot get_bucket_capacity", trait="SaltEnv", specs="-")
     + M("EmptyExternalEnv", "external_envs", trait="ExternalEnvFactory", specs="-")
     + M("MegaContext", "on_new_block accessed_bucket_ids with_block with_external_envs") + M("MegaContext", "set_block", trait="ContextSetters")
     + M("MegaContext", "sstore_set_storage_gas new_account_storage_gas create_contract_storage_gas", trait="HostExt")
     + M("MegaBlockExecutor", "get_accessed_bucket_ids", specs="-")
     + M("MegaEvm", "get_accessed_bucket_ids"),
     rules=[R.wrappers_forward])

# --------------------------------------------------------------------------------------------- keyless deploy
prop("K01", "Keyless deployment is intercepted only where it is allowed",
     "From REX2 on, a top-level call of the keyless-deploy entry point of the keyless-deploy system contract is executed by the protocol; nested calls, other selectors or undecodable input, other addresses, earlier versions and calls made from inside such a deployment run the contract's ordinary code, so the deployment can never recurse.",
     ["programs", "inputs"], "all call depths, selectors, targets and versions",
     "needs nesting and version combinations",
     [SRC + "evm/execution.rs", SRC + "sandbox/execution.rs"],
     [("interception", "MegaEvm::frame_init"), ("recursion guard", "sandbox flag of MegaContext")],
     M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"execute_keyless_deploy_call", r"^ret"])
     + M("MegaContext", "with_sandbox_disabled set_sandbox_disabled is_sandbox_disabled")
     + Fn("execute_keyless_deploy_sandbox", mod="sandbox::execution")
     + Fn("execute_keyless_deploy_call", mod="sandbox::execution") + M("MegaContext", "new new_with_context with_db with_external_envs with_cfg with_block with_tx with_chain"))

prop("K02", "A keyless deployment is validated and charged in a fixed order",
     "A keyless deployment charges its fixed overhead first (halting out of gas if it cannot be paid, and counting it as compute gas from REX3 on), then rejects value transfers, undecodable requests, a non-zero transaction nonce, a gas override below the signed gas limit, an unrecoverable signer, a signer nonce above one, and a target address that already has code, each with its own error and before any later step; only then it runs the signed creation with the overridden gas limit, the signer paying for it and needing the balance for gas and value. Success returns the gas used and the deployed address and emits the deployment's logs; an execution failure returns the gas used, the zero address and the encoded error; everything else reverts with the encoded error. The caller is charged only the overhead.",
     ["inputs"], "all encoded transactions, gas limits and account states",
     "each rejection must precede all later effects; tests sample one malformed request each",
     [SRC + "sandbox/execution.rs", SRC + "sandbox/tx.rs"],
     [("steps", "execute_keyless_deploy_call"), ("decoding", "sandbox::tx")],
     Fn("execute_keyless_deploy_call get_account_nonce", mod="sandbox::execution")
     + Fn("calculate_keyless_deploy_address decode_keyless_tx recover_signer", mod="sandbox::tx")
     + Fn("execute_keyless_deploy_sandbox apply_sandbox_state", mod="sandbox::execution") + Fn("encode_error_result", mod="sandbox::error", specs="-") + M("MegaEvm", "frame_init", trait="EvmTr", sel=[r"keyless"]))

prop("K03", "A keyless deployment runs isolated and only its results reach the state",
     "The deployment executes on a snapshot view of the caller's state (including uncommitted changes, with the signer's nonce reset), with the same version, block and chain values and with further keyless deployments disabled, cannot affect the outer transaction except through the returned outcome, and after success or execution failure its account, code, storage and balance changes are merged into the outer journal without losing outer changes; a rejected or failed request merges nothing, and database errors are reported, not swallowed.",
     ["programs", "fault_sequences"], "all deployments, outer states and database failures",
     "needs outer state combined with inner changes",
     [SRC + "sandbox/execution.rs", SRC + "sandbox/state.rs", SRC + "evm/state.rs"],
     [("view", "SandboxDb"), ("merge", "apply_sandbox_state, merge_evm_state")],
     Fn("execute_keyless_deploy_sandbox apply_sandbox_state get_account_nonce", mod="sandbox::execution")
     + M("SandboxDb", "new with_nonce_override") + M("SandboxDb", "basic block_hash code_by_hash storage", trait="Database")
     + M("DatabaseWrapper", "basic block_hash code_by_hash storage", trait="ErasedDatabase", specs="-")
     + Fn("merge_evm_state merge_evm_state_optional_status merge_account_state merge_account_status merge_evm_storage", mod="evm::state")
     + Fn("execute_keyless_deploy_call", mod="sandbox::execution") + M("MegaContext", "with_sandbox_disabled with_block with_cfg with_chain with_tx"))

prop("K04", "Keyless deployment errors survive encoding and decoding",
     "Every keyless deployment error encodes to a distinct revert payload that decodes back to the same error with the same details, and payloads of unknown or malformed shape decode to no error.",
     ["inputs"], "all errors and payloads",
     "round trips must hold for every variant and payload",
     [SRC + "sandbox/error.rs"],
     [("codec", "encode_error_result / decode_error_result")],
     Fn("decode_error_result encode_error_result", mod="sandbox::error"),
     rules=[R.error_codec])

# --------------------------------------------------------------------------------------------- blocks
prop("B01", "System contracts are deployed at their fork and never redeployed",
     "At the start of each block from its fork on, the oracle, high-precision timestamp and keyless-deploy contracts exist at their addresses with the code of the version in force; a contract already carrying that code is reported unchanged, a missing or outdated one gets the new code and code hash keeping its balance and nonce and is marked created and touched, before its fork nothing happens, and database errors are reported.",
     ["histories", "configurations"], "all fork schedules and prior states",
     "needs schedules crossing forks and prior contract states",
     [SRC + "system/oracle.rs", SRC + "system/keyless_deploy.rs"],
     [("deployment", "transact_deploy_*")],
     Fn("transact_deploy_high_precision_timestamp_oracle transact_deploy_oracle_contract", mod="system::oracle", specs="-")
     + Fn("transact_deploy_keyless_deploy_contract", mod="system::keyless_deploy", specs="-")
     + M("MegaBlockExecutor", "pre_execution_changes commit_system_call_outcomes", specs="-", sel=[r"transact_deploy", r"commit"]))

prop("B02", "A block starts and ends with the right system changes in the right order",
     "Every block first enables state clearing and then applies its pre-execution changes in a fixed order (block-hash history call, beacon-root call, oracle, high-precision timestamp and keyless-deploy contracts), reporting each to the state listener and committing each exactly once; the end of the block applies balance increments and returns the receipts, requests and gas total of the committed transactions. System calls follow their EIPs: skipped when inactive or at genesis, failing when the beacon root is missing or is non-zero at genesis, with the system address as caller and the parent hash or beacon root as input.",
     ["histories", "configurations"], "all blocks and fork schedules",
     "ordering and skip conditions depend on schedule and block number",
     [SRC + "block/executor.rs", SRC + "block/eips.rs"],
     [("pre/post changes", "MegaBlockExecutor::{pre_execution_changes,post_execution_changes,commit_system_call_outcomes}"), ("EIP calls", "block::eips")],
     M("MegaBlockExecutor", "pre_execution_changes post_execution_changes commit_system_call_outcomes new", specs="-")
     + M("MegaBlockExecutor", "apply_pre_execution_changes finish set_state_hook evm evm_mut", trait="BlockExecutor", specs="-")
     + Fn("transact_blockhashes_contract_call transact_beacon_root_contract_call transact_balance_increments", mod="block::eips", specs="-")
     + M("MegaEvm", "transact_system_call", trait="Evm") + M("MegaEvm", "transact_system_call_with_caller", trait="SystemCallEvm") + M("MegaHandler", "run_system_call", trait="Handler"))

prop("B03", "Block and transaction limits admit exactly the transactions that fit",
     "A transaction is rejected, checked in this order, when its gas limit exceeds the per-transaction bound or the block's remaining gas, its encoded size exceeds the per-transaction bound or the block's remaining size, its data-availability size exceeds either bound (deposits are exempt), or the block's data size, storage updates, compute gas or state growth has already reached its bound; so the last admitted transaction may pass those four. Block totals grow by exactly what each committed transaction used (data-availability size not for deposits), rejected ones change nothing, the block counts as full exactly when one of its totals has reached its bound, and errors report the true usage and bound. Each limit setter changes only its own limit and the per-version defaults are the published ones.",
     ["histories", "inputs"], "all transaction sequences and limit settings",
     "boundary sums over sequences; exemption and check order combinations",
     [SRC + "block/limit.rs", SRC + "block/result.rs"],
     [("limiter", "BlockLimiter"), ("limits", "BlockLimits"), ("errors", "block::result")],
     M("BlockLimiter", "new pre_execution_check post_execution_check post_execution_update_raw is_block_limit_reached", specs="-")
     + M("BlockLimits", "from_hardfork_and_block_gas_limit no_limits to_block_limiter to_evm_tx_runtime_limits with_block_compute_gas_limit with_block_da_size_limit with_block_env_access_compute_gas_limit with_block_gas_limit with_block_kv_update_limit with_block_state_growth_limit with_block_txs_data_limit with_block_txs_encode_size_limit with_oracle_access_compute_gas_limit with_tx_compute_gas_limit with_tx_da_size_limit with_tx_data_limit with_tx_encode_size_limit with_tx_gas_limit with_tx_kv_update_limit with_tx_runtime_limits with_tx_state_growth_limit", specs="-")
     + M("MegaBlockLimitExceededError", "block_used limit", specs="-") + M("MegaTxLimitExceededError", "usage limit", specs="-")
     + M("MegaBlockLimitExceededError", "is_nonce_too_low", trait="InvalidTxError", specs="-") + M("MegaTxLimitExceededError", "is_nonce_too_low", trait="InvalidTxError", specs="-")
     + M("MegaBlockExecutor", "run_transaction execute_mega_transaction commit_transaction_outcome commit_execution_outcome new", specs="-")
     + M("OpTxEnvelope", "tx_hash", trait="MegaTransactionExt", specs="-") + M("EnrichedMegaTx", "estimated_da_size tx_hash tx_size", trait="MegaTransactionExt", specs="-") + [Ob(n, None, None, "MegaTransactionExt", specs="-") for n in ("estimated_da_size", "tx_size")],
     rules=[R.setters])

prop("B04", "Executing then committing a transaction updates block state exactly once",
     "Running a transaction in a block checks admission with its own hash, gas limit, sizes and kind, executes it, and changes nothing in the block totals, receipts or database until it is committed; committing checks admission again, adds its gas and resource usage once, reports its state once to the listener, produces one receipt with the cumulative gas including it (and, for deposits, the sender's nonce before execution and the receipt version) and writes its state to the database once. A transaction the caller chooses not to commit leaves no trace.",
     ["histories"], "all sequences of run, commit and skip",
     "sequences of executed, rejected and uncommitted transactions are not enumerable by tests",
     [SRC + "block/executor.rs", SRC + "block/helpers.rs"],
     [("run and commit", "MegaBlockExecutor::{run_transaction,execute_mega_transaction,commit_transaction_outcome,commit_execution_outcome}")],
     M("MegaBlockExecutor", "run_transaction execute_mega_transaction commit_transaction_outcome commit_execution_outcome get_accessed_block_hashes get_accessed_bucket_ids inspector inspector_mut", specs="-")
     + M("MegaBlockExecutor", "execute_transaction_with_commit_condition", trait="BlockExecutor", specs="-")
     + M("BlockLimiter", "pre_execution_check post_execution_check post_execution_update_raw", specs="-") + M("MegaBlockExecutor", "finish", trait="BlockExecutor", specs="-") + M("MegaBlockExecutor", "post_execution_changes", specs="-") + M("MegaEvm", "transact_raw", trait="Evm") + M("MegaEvm", "execute_transaction inspect_transaction")
     + M("BlockMegaTransactionOutcome", "deref", trait="Deref", specs="-") + M("BlockMegaTransactionOutcome", "deref_mut", trait="DerefMut", specs="-"))

prop("B05", "Block executors are built for the right version, limits and environment",
     "A block executor created by the factory runs on the given state with the given inspector, block context, fork schedule, receipt builder and external data, and applies the block limits to every transaction it runs; creating it with or without an inspector makes no other difference.",
     ["configurations"], "all factory configurations",
     "plumbing of every field through both creation paths",
     [SRC + "block/factory.rs", SRC + "block/executor.rs", SRC + "block/limit.rs"],
     [("factories", "MegaBlockExecutorFactory"), ("executor construction", "MegaBlockExecutor::new")],
     M("MegaBlockExecutorFactory", "new create_executor create_executor_with_inspector evm_factory_mut evm_factory_ref", specs="-")
     + M("MegaBlockExecutorFactory", "create_executor evm_factory", trait="BlockExecutorFactory", specs="-")
     + M("MegaBlockExecutionCtx", "new", specs="-") + M("MegaBlockExecutor", "new", specs="-")
     + M("BlockLimits", "to_evm_tx_runtime_limits with_tx_runtime_limits to_block_limiter", specs="-")
     + M("MegaEvmFactory", "create_evm create_evm_with_inspector", trait="EvmFactory") + M("MegaEvm", "with_tx_runtime_limits with_inspector") + M("MegaContext", "with_tx_runtime_limits") + M("MegaBlockExecutor", "run_transaction", specs="-") + M("BlockLimits", "from_hardfork_and_block_gas_limit", specs="-"))

prop("B06", "Wrapped transactions expose exactly the wrapped transaction",
     "A transaction enriched with its sender and sizes reports the same type, fields, sender, hash and execution environment as the transaction it wraps, its encoded size and data-availability size are those of the encoded transaction, and wrappers (references, recovered and envelope forms) agree with each other.",
     ["inputs"], "all transactions and wrappers",
     "a mis-delegated field only shows for transactions where the fields differ",
     [SRC + "block/helpers.rs"],
     [("delegation", "EnrichedMegaTx"), ("sizes", "MegaTransactionExt")],
     M("EnrichedMegaTx", "new new_slow", specs="-") + M("EnrichedMegaTx", "as_ref", trait="AsRef", specs="-") + M("EnrichedMegaTx", "deref", trait="Deref", specs="-")
     + M("EnrichedMegaTx", "into_tx_env", trait="IntoTxEnv", specs="-") + M("EnrichedMegaTx", "estimated_da_size tx_hash tx_size", trait="MegaTransactionExt", specs="-")
     + M("EnrichedMegaTx", "signer tx", trait="RecoveredTx", specs="-")
     + M("EnrichedMegaTx", "access_list authorization_count authorization_list blob_count blob_gas_used blob_versioned_hashes chain_id effective_gas_price effective_tip_per_gas function_selector gas_limit gas_price input is_create is_dynamic_fee kind max_fee_per_blob_gas max_fee_per_gas max_priority_fee_per_gas nonce priority_fee_or_price to value", trait="Transaction", specs="-")
     + M("EnrichedMegaTx", "is_eip1559 is_eip2930 is_eip4844 is_eip7702 is_legacy is_type ty", trait="Typed2718", specs="-")
     + M("OpTxEnvelope", "tx_hash", trait="MegaTransactionExt", specs="-") + M("Recovered", "tx_hash", trait="MegaTransactionExt", specs="-")
     + [Ob(n, None, None, "MegaTransactionExt", specs="-") for n in ("estimated_da_size", "tx_size")]
     + M("EnrichedMegaTx", "deref_mut", trait="DerefMut", specs="-"),
     rules=[R.forwarders])

prop("S01", "Merging state keeps every change and prefers the newer one",
     "Merging one state into another keeps all accounts and slots of both; where both have an entry the newer one's info and present slot values win while the original slot values needed for accounting and the existing warmth are kept, entries only the newer one has arrive cold, an account destroyed in the newer one becomes empty and touched, and status flags are combined when asked (only the touched flag otherwise) without transaction-local flags. The block hashes accessed during execution are reported completely.",
     ["histories"], "all pairs of states",
     "needs overlapping accounts, slots and status flags",
     [SRC + "evm/state.rs"],
     [("merge", "merge_*"), ("block hashes", "BlockHashes")],
     Fn("merge_evm_state merge_evm_state_optional_status merge_account_state merge_account_status merge_evm_storage", mod="evm::state", specs="-")
     + M("State", "get_accessed_block_hashes", trait="BlockHashes", specs="-"),
     rules=[R.wrappers_forward])

# --------------------------------------------------------------------------------------------- failures, determinism
ERR = [r"^ret(!Err.*)?$"]
prop("E01", "A failing data source surfaces as an error, never as a crash or a made-up value",
     "For every transaction and every point at which the state database, the external environment or a supplied encoding fails, the failure reaches the caller as an error (or, inside the keyless-deployment sandbox, as the error the deployment reports): no failing read is replaced by a default value, no transaction result is produced after one, and no input makes the library abort in a case in which it is not documented to. Opcodes whose price cannot be determined stop the frame as a fatal external failure, and a fatal stop is never reported as an ordinary halt or revert.",
     ["faults", "inputs"], "all points at which the database or the external environment can fail, all malformed inputs",
     "tests use in-memory sources that never fail",
     [SRC + "evm/execution.rs", SRC + "evm/instructions.rs", SRC + "evm/host.rs", SRC + "external/gas.rs", SRC + "limit/state_growth.rs", SRC + "sandbox/state.rs", SRC + "sandbox/execution.rs", SRC + "block/executor.rs", SRC + "system/oracle.rs"],
     [("fatal stops", "MegaEvm::after_frame_run_instructions"), ("fallible reads", "every function returning a Result of a data source"), ("aborts", "path condition of every panic in the crate")],
     M("MegaEvm", "frame_init frame_run frame_return_result", trait="EvmTr", sel=ERR) + M("MegaEvm", "inspect_frame_init inspect_frame_run", trait="InspectorEvmTr", sel=ERR)
     + M("MegaEvm", "before_frame_run after_frame_run after_frame_run_instructions", sel=ERR)
     + M("MegaHandler", "before_run before_execution", sel=ERR)
     + M("MegaHandler", "validate execution last_frame_result execution_result pre_execution validate_env validate_against_state_and_deduct_caller catch_error run_without_catch_error run_system_call reimburse_caller reward_beneficiary", trait="Handler", sel=ERR)
     + M("MegaHandler", "inspect_execution inspect_run_without_catch_error", trait="InspectorHandler", sel=ERR)
     + M("MegaEvm", "execute_transaction inspect_transaction", sel=ERR) + M("MegaEvm", "transact_raw transact_system_call", trait="Evm", sel=ERR)
     + M("MegaEvm", "transact_one replay", trait="ExecuteEvm", sel=ERR) + M("MegaEvm", "inspect_one_tx", trait="InspectEvm", sel=ERR) + M("MegaEvm", "transact_system_call_with_caller", trait="SystemCallEvm", sel=ERR)
     + M("MegaContext", "sstore_set_storage_gas new_account_storage_gas create_contract_storage_gas", trait="HostExt", sel=ERR)
     + M("Journal", "inspect_account_delegated inspect_storage", trait="JournalInspectTr", sel=ERR, specs="-") + Fn("inspect_account", mod="evm::instructions", sel=ERR, specs="-")
     + M("DynamicGasCost", "load_bucket_cost_multiplier sstore_set_gas new_account_gas create_contract_gas", sel=ERR)
     + M("AdditionalLimit", "before_frame_init", sel=ERR) + M("StateGrowthTracker", "record_call", sel=ERR)
     + M("DatabaseWrapper", "basic storage code_by_hash block_hash", trait="ErasedDatabase", specs="-") + M("SandboxDb", "basic storage code_by_hash block_hash", trait="Database", specs="-", sel=ERR)
     + Fn("get_account_nonce apply_sandbox_state execute_keyless_deploy_sandbox", mod="sandbox::execution", sel=ERR) + Fn("decode_keyless_tx recover_signer", mod="sandbox::tx", sel=ERR, specs="-")
     + Fn("transact_deploy_oracle_contract transact_deploy_high_precision_timestamp_oracle", mod="system::oracle", sel=ERR, specs="-") + Fn("transact_deploy_keyless_deploy_contract", mod="system::keyless_deploy", sel=ERR, specs="-")
     + Fn("transact_balance_increments transact_beacon_root_contract_call transact_blockhashes_contract_call", mod="block::eips", sel=ERR, specs="-")
     + M("MegaBlockExecutor", "pre_execution_changes post_execution_changes execute_mega_transaction run_transaction commit_execution_outcome commit_transaction_outcome commit_system_call_outcomes", sel=ERR, specs="-")
     + M("MegaBlockExecutor", "apply_pre_execution_changes execute_transaction_with_commit_condition finish", trait="BlockExecutor", sel=ERR, specs="-")
     + OPS(CALLS + CREATES + [0x55], specs=MEGA, sel=[r"halt.*FatalExternalError"]),
     rules=[R.no_new_aborts, R.no_swallowed_failures])

prop("D01", "Execution depends only on the block, the transaction, the state and the supplied environment",
     "Executing the same transactions against the same state, block environment, configuration and external environment gives the same result on every machine, at every time and in every process: the library never reads a clock, the process environment, files, the network, randomness or memory shared between instances, and keeps nothing from one instance to another.",
     ["programs", "configurations", "schedules"], "all executions on all machines and at all times",
     "a test runs on one machine at one time; a dependence on ambient state shows only between machines, as a chain split",
     [SRC + "lib.rs", SRC + "evm/mod.rs", SRC + "block/executor.rs", SRC + "external/gas.rs"],
     [("every function of the crate", "calls into std::time, std::env, std::fs, std::net, std::thread, std::process, randomness, atomics and locks")],
     [],
     rules=[R.no_ambient_input])

# --------------------------------------------------------------------------------------------- state-test tool
ST = "crates/state-test/src/"
prop("X01", "A state test passes only if everything it states was observed",
     "For every state test, the verdict is success exactly when: an exception was expected and the transaction was rejected; or none was expected, the transaction was executed, its output (where the test states one and the execution returned one) equals the stated one, the hash of its RLP-encoded logs equals the stated hash, and the state trie root over all accounts (nonce, balance, root of the non-zero storage, code hash), with only the base-fee vault left out, equals the stated root. Every test starts from its own copy of the stated pre-state, and tracing a test does not change its verdict.",
     ["inputs"], "all state tests and all execution results",
     "the tool has no test of its verdicts; one that accepts too much hides every other defect",
     [ST + "runner.rs", ST + "utils.rs"],
     [("verdict", "check_evm_execution, validate_exception, validate_output"), ("roots", "compute_test_roots, state_merkle_trie_root, TrieAccount::new"), ("execution", "execute_single_test")],
     Fn("validate_exception validate_output check_evm_execution execute_single_test prune_base_fee_vault_changes", mod="runner", specs="-")
     + Fn("compute_test_roots log_rlp_hash state_merkle_trie_root trie_root", mod="utils", specs="-")
     + M("TrieAccount", "new", specs="-") + M("KeccakHasher", "hash", trait="Hasher", specs="-"),
     tree="state_test")

prop("X02", "A state test runs exactly the transaction, block and state it states",
     "For every state test, the executed transaction has the stated sender (or the one recovered from the stated key), gas price or maximum fee, priority fee, recipient or creation, nonce, access list, blob and authorization fields, and the data, gas limit and value selected by the test's own three indices; its type is the stated one or the one its fields imply, in order of precedence; the block has the stated number, beneficiary, time, gas limit, base fee, difficulty and randomness (zero where a merged fork requires one and none is stated) and the blob gas implied by the stated or parent values; every stated account starts with its stated balance, nonce, code and storage; and the stated fork selects the protocol version.",
     ["inputs"], "all state tests",
     "a swapped index or dropped field makes the tool test something else; the tool's tests only parse files",
     [ST + "types/test.rs", ST + "types/test_unit.rs", ST + "types/transaction.rs", ST + "types/spec.rs", ST + "types/deserializer.rs", ST + "utils.rs"],
     [("transaction", "Test::tx_env, TransactionParts::tx_type"), ("block and state", "TestUnit::block_env, TestUnit::state"), ("fork", "SpecName::to_spec_id")],
     M("Test", "tx_env", specs="-") + M("TestUnit", "state block_env", specs="-") + M("TransactionParts", "tx_type", specs="-") + M("SpecName", "to_spec_id", specs="-")
     + Fn("recover_address", mod="utils", specs="-") + Fn("deserialize_str_as_u64 deserialize_maybe_empty", mod="deserializer", specs="-")
     + M("SignedAuthorization", "from", trait="From", specs="-") + M("TestAuthorization", "deserialize", trait="Deserialize", specs="-"),
     tree="state_test")

prop("X03", "A state-test run reports success only if every test file ran and passed",
     "For every set of test files, number of threads and order in which they finish: each file is handed to exactly one worker; every test of every unit and fork in it is executed unless the file is on the fixed list of skipped names, the fork is the one never supported, or its transaction is unusable and an exception was expected; a failing test, an unreadable file or a dead worker makes the run fail; and without the option to keep going no further file is started after a failure. Requesting traces or outcomes implies a single thread.",
     ["inputs", "schedules"], "all sets of test files and all schedules of the workers",
     "the tool's threads are not tested; a lost failure turns the whole suite green",
     [ST + "runner.rs"],
     [("files", "execute_test_suite, skip_test, find_all_json_tests"), ("workers", "run, run_test_worker, TestRunnerState::next_test")],
     Fn("execute_test_suite skip_test find_all_json_tests run run_test_worker determine_thread_count", mod="runner", specs="-")
     + M("TestRunnerState", "new next_test", specs="-") + M("TestRunnerConfig", "new", specs="-"),
     tree="state_test")
