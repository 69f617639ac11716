"""Properties stated but not decided by static analysis here, with the reason."""


def q(title, statement, over, text, why, files, mech, reason):
    return {"title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "reason": reason}


NOT_APPLICABLE = {
    "N01": q("Opcode results and base gas equal the reference EVM numerically",
             "For every program and input, each opcode's result and base gas equal the reference Ethereum specification of the underlying fork.",
             ["programs", "inputs"], "all programs and inputs", "an unbounded space of programs",
             ["crates/mega-evm/src/evm/instructions.rs"], [("interpreter", "upstream revm interpreter crate")],
             "the arithmetic lives in the upstream interpreter crates (not part of this repository) and quantifies over runtime values; here only the delegation to them is decided (F03, O01)"),
    "N02": q("Metered limits bound real execution time and memory",
             "A transaction within its compute-gas, data-size, storage-update and state-growth limits takes bounded wall-clock time and memory.",
             ["programs"], "all programs", "tests cannot bound the worst case",
             ["crates/mega-evm/src/limit/mod.rs"], [("limits", "AdditionalLimit")],
             "wall-clock time and memory are runtime quantities of the interpreter and the host; no sound static bound is in reach"),
    "N03": q("System contract bytecode implements its published interface",
             "The embedded byte code of the oracle, timestamp and keyless-deploy contracts implements exactly the published interface and access control.",
             ["programs", "inputs"], "all calls to the system contracts", "tests call a few entry points",
             ["crates/system-contracts"], [("bytecode", "embedded artifacts")],
             "the contracts are compiled EVM byte code embedded as data; deciding their behaviour needs EVM execution, not analysis of this Rust source (B01 decides that the embedded code of the right version is deployed)"),
    "N04": q("The command-line runner reports what the library computes",
             "The command-line tool runs transactions and replays with the library's semantics and prints the resulting state, receipts and traces unmodified.",
             ["inputs", "configurations"], "all command lines and inputs", "the tool has few tests",
             ["bin/mega-evme"], [("tool", "bin/mega-evme")],
             "its dependencies are not available offline, so no type-checked program exists here to analyse; a purely textual rule would be brittle (the state-test runner compiles and is decided by X01-X03)"),
    "N05": q("External bucket and oracle data are truthful",
             "The capacities and oracle values supplied from outside equal those committed in the chain state.",
             ["inputs", "fault_sequences"], "all external responses", "outside the code",
             ["crates/mega-evm/src/external"], [("interfaces", "SaltEnv, OracleEnv")],
             "the truth of data supplied by the embedding node at run time is not visible in this source; how the code uses it is decided by T07, O03 and V02"),
}
