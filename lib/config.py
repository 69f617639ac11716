"""How this code base is cut into components (analysis boundaries)."""
from engine import *

DEVIRT = {"mega_evm::evm::host::HostExt": "MegaContext",
          "mega_evm::evm::instructions::JournalInspectTr": "Journal",
          "mega_evm::evm::instructions::StackInspectTr": "Stack"}
INLINE_DEFAULT = ["mega_evm::block::hardfork::MegaHardforks"]
SPECS = ["EQUIVALENCE", "MINI_REX", "REX", "REX1", "REX2", "REX3", "REX4"]

COMPONENT_TYPES = {"AdditionalLimit", "DataSizeTracker", "KVUpdateCounter", "StateGrowthTracker", "ComputeGasTracker",
                   "VolatileDataAccessTracker", "DynamicGasCost", "BlockLimiter", "BlockLimits", "EvmTxRuntimeLimits",
                   "MegaInstructions", "MegaPrecompiles", "SandboxDb", "MegaHardforkConfig"}
COMPONENT_FNS = {"execute_keyless_deploy_call", "execute_keyless_deploy_sandbox", "apply_sandbox_state", "merge_evm_state",
                 "merge_evm_state_optional_status", "decode_keyless_tx", "recover_signer", "calculate_keyless_deploy_address",
                 "encode_error_result", "decode_error_result", "check_if_mega_system_transaction",
                 "is_mega_system_transaction", "sent_from_mega_system_address", "is_deposit_like_transaction",
                 "transact_deploy_oracle_contract", "transact_deploy_high_precision_timestamp_oracle",
                 "transact_deploy_keyless_deploy_contract", "transact_blockhashes_contract_call",
                 "transact_beacon_root_contract_call", "transact_balance_increments", "get_account_nonce",
                 "gen_oog_frame_result", "inspect_account_delegated", "inspect_storage",
                 "check_evm_execution", "compute_test_roots", "validate_exception", "validate_output", "log_rlp_hash",
                 "state_merkle_trie_root", "execute_single_test", "execute_test_suite", "debug_failed_test", "skip_test",
                 "build_json_output", "recover_address", "run_test_worker", "prune_base_fee_vault_changes"}
COMPONENT_METHODS = {("MegaContext", "on_new_tx"), ("MegaContext", "on_new_block"), ("MegaContext", "new"),
                     ("MegaContext", "check_tx_beneficiary_access"), ("MegaContext", "check_and_mark_beneficiary_balance_access"),
                     ("MegaContext", "mark_block_env_accessed"),
                     ("MegaContext", "sstore_set_storage_gas"), ("MegaContext", "new_account_storage_gas"),
                     ("MegaContext", "create_contract_storage_gas"),
                     ("AdditionalLimit", "check_limit"),
                     ("MegaEvm", "execute_transaction"), ("MegaEvm", "inspect_transaction"),
                     ("MegaEvm", "before_frame_run"), ("MegaEvm", "after_frame_run_instructions"), ("MegaEvm", "after_frame_run"),
                     ("MegaHandler", "before_run"), ("MegaHandler", "before_execution"), ("MegaHandler", "validate"),
                     ("MegaHandler", "execution"), ("MegaHandler", "inspect_execution"), ("MegaHandler", "execution_result"),
                     ("MegaHandler", "catch_error"), ("MegaHandler", "last_frame_result"), ("MegaHandler", "run_system_call"),
                     ("MegaHardforkConfig", "insert"), ("MegaHardforkConfig", "with"),
                     ("MegaEvm", "frame_init"), ("MegaEvm", "frame_run"),
                     ("MegaBlockExecutor", "run_transaction"), ("MegaBlockExecutor", "commit_transaction_outcome"),
                     ("MegaBlockExecutor", "pre_execution_changes"), ("MegaBlockExecutor", "post_execution_changes"),
                     ("MegaBlockExecutor", "commit_system_call_outcomes"), ("MegaBlockExecutor", "new"),
                     ("Test", "tx_env"), ("TestUnit", "state"), ("TestUnit", "block_env"), ("TransactionParts", "tx_type"),
                     ("TestRunnerState", "next_test"), ("SpecName", "to_spec_id")}


def ty_of(fn):
    return strip_generics(fn.get("impl_ty", "")).split("::")[-1]


def modular(root):
    """Boundary predicate for analysing `root`: known functions of other components stay opaque."""
    rt = ty_of(root)

    def b(fn):
        n, t = fn["name"], ty_of(fn)
        if fn["key"] == root["key"]:
            return False
        if (t, n) in COMPONENT_METHODS:
            return True
        if t in COMPONENT_TYPES and not fn.get("impl_trait"):
            return t != rt
        if n in COMPONENT_FNS:
            return True
        return False
    return b
