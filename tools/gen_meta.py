#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "src/ethereum/<fork>/"
T = ("The repository's offline tests run almost no EVM, transaction or block code (the consensus vectors need a download); "
     "even with them, vectors sample a handful of ")

# id, title, statement, over, quantifier text, sampled thing, files, mechanism[(name, where)], level note
P = []
def p(*a): P.append(a)

p("C01", "Arithmetic opcodes compute the yellow-paper result at the right gas",
  "In every fork, executing ADD, MUL, SUB, DIV, SDIV, MOD, SMOD, ADDMOD, MULMOD, EXP or SIGNEXTEND replaces its operands by exactly the result the protocol defines over 256-bit words (wrap-around, zero divisor, signed overflow and sign cases included) and advances to the next instruction. It deducts exactly the fork's gas for that opcode (EXP by exponent byte length) and halts exceptionally when that gas is not available. Nothing else in the frame changes.",
  ["inputs", "configurations"], "every operand value, every gas amount, every fork", "operand triples",
  ["vm/instructions/arithmetic.py", "vm/gas.py", "vm/stack.py"], [("opcode implementations", "vm/instructions/arithmetic.py"), ("gas charging", "vm/gas.py:charge_gas")])
p("C02", "Comparison, bitwise, shift and bit-counting opcodes are exact",
  "In every fork that has them, LT, GT, SLT, SGT, EQ, ISZERO, AND, OR, XOR, NOT, BYTE, SHL, SHR, SAR and CLZ push exactly the protocol-defined word for all operands (signed boundaries, shift amounts of 256 and more and out-of-range byte indices included). Each deducts exactly its gas, halts when gas is short and changes nothing else.",
  ["inputs", "configurations"], "every operand value, gas amount and fork", "operand pairs",
  ["vm/instructions/comparison.py", "vm/instructions/bitwise.py"], [("opcode implementations", "vm/instructions/comparison.py, bitwise.py")])
p("C03", "Stack discipline: underflow, the 1024-item limit, PUSH, DUP, SWAP, POP",
  "For every opcode of every fork, a stack with fewer items than the opcode consumes leads to an exceptional halt, and so does any result that would make the stack deeper than 1024 items, while 1024 itself is allowed. PUSHn pushes the n code bytes that follow (zero-padded past the end of the code, PUSH0 from Shanghai) and skips them, DUPn and SWAPn touch exactly the nth item, POP drops one, each at its fixed gas.",
  ["inputs", "configurations"], "every opcode byte, stack contents, code position, fork", "stack depths",
  ["vm/stack.py", "vm/instructions/stack.py"], [("bounds checks", "vm/stack.py"), ("push/dup/swap", "vm/instructions/stack.py")])
p("C04", "Memory opcodes read and write the right bytes and charge expansion gas",
  "MLOAD, MSTORE, MSTORE8, MSIZE and MCOPY act on a zero-initialised byte memory that grows in 32-byte words to cover every byte touched, for every offset and length: they read and write exactly the addressed bytes (overlapping copies included) and leave all other bytes unchanged. Growth costs 3 gas per word plus words squared over 512, charged on the difference to the current size, and nothing when the length is zero.",
  ["inputs", "configurations"], "every offset, length, value, memory size and content, gas, fork", "offsets",
  ["vm/instructions/memory.py", "vm/memory.py", "vm/gas.py"], [("expansion cost", "vm/gas.py:calculate_gas_extend_memory"), ("reads/writes", "vm/memory.py")])
p("C05", "Call data, code, return data copying and hashing use the exact bytes",
  "CALLDATALOAD, CALLDATASIZE, CALLDATACOPY, CODESIZE, CODECOPY, EXTCODESIZE, EXTCODECOPY, EXTCODEHASH, RETURNDATASIZE, RETURNDATACOPY, KECCAK256, LOG data, RETURN and REVERT data use exactly the addressed source bytes, zero-padded past the end (RETURNDATACOPY instead halts on any out-of-range read). Copying charges 3 gas per word (KECCAK256 30 plus 6 per word) plus memory expansion plus the fork's cost of touching an account.",
  ["inputs", "configurations"], "every source buffer, offset, length, memory, gas, fork", "copies",
  ["vm/instructions/environment.py", "vm/instructions/keccak.py", "vm/memory.py"], [("buffer_read padding", "vm/memory.py:buffer_read")])
p("C06", "Control flow: jumps land only on JUMPDESTs, and only defined opcodes run",
  "JUMP and a taken JUMPI continue only at a JUMPDEST byte that is not inside PUSH data and otherwise halt exceptionally; an untaken JUMPI, PC, GAS and JUMPDEST behave as defined. Running off the end of the code stops successfully, STOP, RETURN and REVERT end the frame as defined, and each fork executes exactly the opcodes that exist in it: any other byte halts exceptionally.",
  ["inputs", "programs", "configurations"], "every jump target and condition, every opcode byte, every code of up to the stated length", "programs",
  ["vm/runtime.py", "vm/instructions/control_flow.py", "vm/instructions/__init__.py", "vm/interpreter.py"], [("jump destination analysis", "vm/runtime.py"), ("opcode table", "vm/instructions/__init__.py")])
p("C07", "Environment and block-context opcodes push the current context",
  "ADDRESS, BALANCE, SELFBALANCE, ORIGIN, CALLER, CALLVALUE, GASPRICE, BLOCKHASH, COINBASE, TIMESTAMP, NUMBER, DIFFICULTY/PREVRANDAO, GASLIMIT, CHAINID, BASEFEE, BLOBHASH and BLOBBASEFEE push exactly the value of the executing message, transaction, block or account, in the forks where they exist. BLOCKHASH answers only for the 256 most recent blocks and pushes zero otherwise, BALANCE of an absent account is zero, and each charges its fork's gas, warm and cold account access included.",
  ["inputs", "configurations"], "every context value, account, block number, fork", "contexts",
  ["vm/instructions/environment.py", "vm/instructions/block.py"], [("context reads", "vm/instructions/environment.py, block.py")])
p("C08", "Storage opcodes: values, gas and refunds of every transition",
  "SLOAD returns the current value of the addressed slot of the executing contract and SSTORE sets it, no other slot changing. For every combination of original, current and new value and of warm or cold access, SSTORE charges and refunds exactly what the fork's rules prescribe (net metering where active), halts when not more than the 2300 stipend is left from Istanbul on, and TLOAD/TSTORE access transient storage at 100 gas.",
  ["inputs", "histories", "configurations"], "every original/current/new value, key, warm state, gas, refund counter, fork", "value transitions",
  ["vm/instructions/storage.py", "state.py"], [("SSTORE metering", "vm/instructions/storage.py:sstore")])
p("C09", "Account and slot access is charged cold once, warm afterwards",
  "From Berlin on, the first access of an address or storage slot in a transaction costs the cold price and every later one the warm price, for every opcode that touches an account or slot, and the access adds exactly that address or slot to the transaction's accessed sets. A frame that fails does not leave its accesses behind, one that succeeds passes them to its caller.",
  ["inputs", "histories", "configurations"], "every address, slot, prior access set, fork", "access sequences",
  ["vm/instructions/environment.py", "vm/instructions/storage.py", "vm/instructions/system.py", "vm/__init__.py"], [("accessed sets", "vm/__init__.py:Evm")])
p("C10", "LOGn appends exactly one log with the given topics and data",
  "LOG0 to LOG4 append one log entry carrying the executing contract's address, the topics from the stack in order and exactly the addressed memory bytes, and charge 375 gas per log and per topic, 8 per byte and memory expansion. Earlier logs are kept in order.",
  ["inputs", "configurations"], "every topic, offset, length, memory, gas, fork", "logs",
  ["vm/instructions/log.py"], [("log_n", "vm/instructions/log.py")])
p("C11", "A static call cannot change state",
  "From Byzantium on, inside a static frame SSTORE, TSTORE, LOG0-4, CREATE, CREATE2, SELFDESTRUCT and a value-transferring CALL halt exceptionally, whatever their operands, and staticness is inherited by every nested call. State, logs and accounts scheduled for deletion are then unchanged.",
  ["inputs", "programs", "configurations"], "every operand, gas, fork", "static calls",
  ["vm/instructions/system.py", "vm/instructions/storage.py", "vm/instructions/log.py"], [("is_static checks", "vm/instructions/*.py")])
p("C12", "CALL, CALLCODE, DELEGATECALL and STATICCALL set up and settle the child",
  "Each call opcode runs the callee's code with exactly the caller, address, value, input bytes, static flag, depth and code the opcode defines, passes at most the fork's share of gas (63/64 from Tangerine Whistle) plus the 2300 stipend for value, and charges the access, value-transfer and new-account costs of its fork. Insufficient balance or depth 1024 fails the call without running it; afterwards unused gas is credited, success is pushed, output is written to exactly the requested memory range (truncated to the shorter length) and return data is set.",
  ["inputs", "programs", "configurations"], "every operand, gas, balance, depth, callee state, child result, fork", "calls",
  ["vm/instructions/system.py", "vm/gas.py"], [("generic_call", "vm/instructions/system.py"), ("message call gas", "vm/gas.py:calculate_message_call_gas")])
p("C13", "CREATE and CREATE2 set up and settle contract creation",
  "CREATE and CREATE2 run the addressed memory bytes as init code with all but one 64th of the gas (all before Tangerine Whistle) and the given value at the address the protocol derives, after increasing the creator's nonce. Insufficient balance, a nonce at its maximum, depth 1024, a collision with an existing account or over-long init code (from Shanghai) fail as the fork prescribes with exactly its gas effect, and the pushed address or zero, return data and returned gas follow the child's outcome.",
  ["inputs", "programs", "configurations"], "every operand, gas, balance, nonce, depth, child result, fork", "creations",
  ["vm/instructions/system.py", "utils/address.py"], [("generic_create", "vm/instructions/system.py")])
p("C14", "SELFDESTRUCT moves the whole balance and schedules deletion by fork rules",
  "SELFDESTRUCT stops the frame, moves the contract's whole balance to the beneficiary (burning it only when the beneficiary is itself and the fork deletes the account) and charges its fork's base, cold-access and new-account gas and refund. The account is scheduled for deletion, from Cancun only if it was created in the same transaction.",
  ["inputs", "configurations"], "every beneficiary, balance, existence, gas, fork", "beneficiaries",
  ["vm/instructions/system.py", "state.py"], [("selfdestruct", "vm/instructions/system.py")])
p("C15", "A failed frame leaves no trace and a successful one keeps all its effects",
  "When a message call or contract creation ends in error, the state (transient storage included) is exactly as before the frame and its logs and refunds are discarded; an exceptional halt consumes all its gas and yields no output, a revert keeps the remaining gas and output. On success everything is kept; a creation then charges 200 gas per byte of deployed code and enforces the fork's rules for short gas, code size limit and the 0xEF prefix.",
  ["programs", "histories", "configurations"], "every outcome and effect of the frame's code, every value transfer, gas and returned code, fork", "frames",
  ["vm/interpreter.py", "vm/__init__.py"], [("process_message / process_create_message", "vm/interpreter.py")])
p("C16", "State snapshots nest: rollback restores exactly, commit keeps exactly",
  "For every sequence of account, storage and transient-storage writes between beginning and ending (possibly nested) transactions, rolling back makes every account, slot and transient slot read as it did at the begin, and committing makes them read as last written. Original storage values asked for during a transaction are those at its start, or zero for accounts created in it.",
  ["histories", "inputs", "configurations"], "every sequence of up to the stated number of operations on symbolic (possibly equal) addresses, keys and values, fork", "histories",
  ["state.py", "trie.py"], [("begin/commit/rollback_transaction", "state.py"), ("copy_trie", "trie.py")])
p("C17", "Account primitives: reads, existence, emptiness, transfers, deletion",
  "Reading an account returns what was last set (an empty account if none), balance and nonce updates and ether transfers change exactly the named fields by exactly the stated amounts and never create or destroy ether, and a transfer the sender cannot cover fails. Existence, emptiness, code-or-nonce and alive predicates agree with the account's nonce, balance, code and storage, and destroying an account removes it with all its storage and nothing else.",
  ["inputs", "histories", "configurations"], "every account content and amount, equal or distinct addresses, fork", "accounts",
  ["state.py"], [("account accessors", "state.py")])
p("C18", "Intrinsic gas, calldata floor and static transaction validity",
  "A transaction's intrinsic gas is exactly 21000 plus the fork's per-byte calldata cost by zero and non-zero bytes, creation and init-code-word cost, access-list and authorization-list cost, and from Prague the calldata floor is 21000 plus 10 per token. A transaction is statically rejected exactly when its gas limit is below the required amount, its nonce is at the 64-bit maximum, its init code is too long, or (Osaka) its gas limit exceeds 2^24.",
  ["inputs", "configurations"], "every calldata within the length bound, access list and authorization list sizes, gas limit, nonce, fork", "transactions",
  ["transactions.py"], [("calculate_intrinsic_cost / validate_transaction", "transactions.py")])
p("C19", "Transactions are included only if every inclusion rule holds",
  "A transaction is accepted for inclusion exactly when it fits in the remaining block gas (and blob gas), its signer is recovered, its nonce equals the sender's, its fees satisfy the base-fee and priority-fee rules, its sender can pay the maximum gas, blob and value cost, the sender has no code (or, from Prague, only a delegation), and its blob hashes and authorizations are well-formed. The resulting effective gas price is the base fee plus the capped priority fee (the plain gas price for older types).",
  ["inputs", "configurations"], "every fee field, nonce, balance, gas, block usage, transaction type, fork", "transactions",
  ["fork.py"], [("check_transaction", "fork.py")])
p("C20", "Transaction settlement: nonce, gas purchase, refund cap, miner pay, burn",
  "Executing a transaction increments the sender's nonce by one and in total charges the sender exactly gas used times effective price plus blob fee plus transferred value, crediting the coinbase exactly gas used times the priority price. Gas used is the consumed gas less the refund capped at one half (one fifth from London), at least the calldata floor from Prague, and the same amount enters the block's cumulative gas, the receipt and the remaining block gas.",
  ["inputs", "programs", "configurations"], "every gas limit, price, balance, refund counter, gas left and outcome of the execution, transaction type, fork", "transactions",
  ["fork.py"], [("process_transaction", "fork.py")])
p("C21", "Sender recovery accepts exactly valid signatures over the right payload",
  "The sender recovered from a transaction is the address of the key recovered from its r, s, y-parity and the signing hash of exactly that transaction type's fields, chain id included where the type has one (EIP-155 for legacy with v of 35+2*chain id or more). Signatures with r or s of zero or not below the curve order, s above half the order (from Homestead), an invalid parity or the wrong chain id are rejected.",
  ["inputs", "configurations"], "every r, s, v, chain id, transaction type, fork", "signatures",
  ["transactions.py", "crypto/elliptic_curve.py"], [("recover_sender / signing_hash_*", "transactions.py")])
p("C22", "Typed transactions and receipts are encoded, decoded and hashed by type",
  "Encoding a transaction yields the legacy object itself or its type byte followed by the RLP of its fields, decoding inverts it exactly and rejects unknown types, and the transaction hash is the keccak of that encoding. Receipts carry the same type byte, their status or state root, cumulative gas, bloom and logs.",
  ["inputs", "configurations"], "every type byte, payload field and log list within bounds, fork", "encodings",
  ["transactions.py", "blocks.py"], [("encode_transaction / decode_transaction / encode_receipt", "transactions.py, blocks.py")])
p("C23", "Block gas limit and base fee follow the parent exactly",
  "A block's gas limit is valid exactly when it differs from its parent's by less than one 1024th and is at least 5000, and from London its base fee must equal the parent's moved towards the gas target by exactly the EIP-1559 rule (unchanged at target, at least plus one above, never more than an eighth). The first London block is compared with twice its parent's limit and starts at 1 gwei. All other values are rejected.",
  ["inputs", "configurations"], "every parent gas limit, gas used and base fee, fork", "parents",
  ["fork.py"], [("check_gas_limit / calculate_base_fee_per_gas", "fork.py")])
p("C24", "Headers are accepted exactly when every header rule holds",
  "A header is accepted only if its number follows its parent, its timestamp is later, its gas used does not exceed its limit, its extra data is at most 32 bytes, its parent hash is the hash of the parent, and its difficulty, nonce, ommers hash, base fee and blob gas fields are what the fork requires. Any header violating one of these is rejected.",
  ["inputs", "configurations"], "every header and parent field, fork", "headers",
  ["fork.py"], [("validate_header", "fork.py")])
p("C25", "Proof-of-work difficulty follows the fork's formula",
  "For every parent difficulty, timestamp pair and block number, the difficulty a proof-of-work block must have is exactly the fork's formula: timestamp adjustment (with the uncle term from Byzantium), the exponential bomb with the fork's delay, and the 131072 floor as the fork applies it.",
  ["inputs", "configurations"], "every block number within the bound, parent and block timestamp, parent difficulty, uncle flag, fork", "blocks",
  ["fork.py"], [("calculate_block_difficulty", "fork.py")])
p("C26", "Blob gas: excess, price and per-block limits",
  "From Cancun the excess blob gas of a block is exactly what its parent's excess, usage and the fork's target determine (with the Osaka reserve-price rule; the first blocks of Prague and Osaka carry it over, Cancun starts at zero), the blob gas price is exactly the protocol's integer exponential of it, each blob costs 131072 blob gas, and the fork's per-block and per-transaction blob limits are enforced.",
  ["inputs", "configurations"], "every parent excess, usage, base fee and blob count within bounds, fork", "parents",
  ["vm/gas.py", "fork.py"], [("calculate_excess_blob_gas / calculate_blob_gas_price", "vm/gas.py"), ("taylor_exponential", "utils/numeric.py")])
p("C27", "Ommers are validated and rewarded exactly",
  "In proof-of-work forks a block's ommer list is accepted exactly when it has at most two distinct entries, none already included, none an ancestor, each with a valid header and a parent between one and six generations back. The coinbase gets the fork's block reward plus one 32nd per ommer and each ommer's coinbase the reward times (8 - age)/8.",
  ["inputs", "histories", "configurations"], "every ommer number, block number, coinbase aliasing and count, fork", "ommer lists",
  ["fork.py"], [("validate_ommers / pay_rewards", "fork.py")])
p("C28", "Block bodies apply withdrawals, system calls and requests in protocol order",
  "A block is applied in order: system contract calls, transactions in list order with their indices, rewards or withdrawals, then request processing. Each withdrawal credits exactly its amount in gwei to its address, system calls run as the system address with 30 million gas without charging or counting gas, and requests are the deposit log data and system-contract outputs by type, empty ones omitted, with their sha256 commitment.",
  ["inputs", "programs", "configurations"], "every withdrawal list, system call result and deposit log layout within bounds, fork", "blocks",
  ["fork.py", "requests.py"], [("apply_body / process_withdrawals / process_general_purpose_requests", "fork.py"), ("deposit parsing", "requests.py")])
p("C29", "EIP-7702 authorizations apply exactly when valid",
  "From Prague an authorization sets its signer's code to the delegation of the given address (or clears it for the zero address), increments its nonce and marks it accessed exactly when the chain id is zero or ours, the nonce matches and is below the maximum, the signature is valid and low-s, and the account has no code or only a delegation; otherwise it is skipped without effect. A non-empty signer refunds 12500 gas, and calls to a delegated account run the target's code once without following chains, charging the target's access.",
  ["inputs", "programs", "configurations"], "every authorization field, signer account, chain id, access state", "authorizations",
  ["vm/eoa_delegation.py", "vm/interpreter.py"], [("set_delegation / access_delegation", "vm/eoa_delegation.py")])
p("C30", "The trie root is a function of the key-value mapping alone",
  "Setting a key then reading it returns the value, setting the default removes the key, and other keys are unaffected; equal mappings have equal roots whatever the order of updates, and the root equals the Merkle-Patricia construction (nibble paths, hex-prefix encoding, leaf, extension and branch nodes, inlining below 32 bytes).",
  ["inputs", "histories", "configurations"], "every set of up to the stated number of keys of the stated length with symbolic nibbles, update order, fork", "key sets",
  ["trie.py"], [("patricialize / encode_internal_node / nibble_list_to_compact", "trie.py")])
p("C31", "The logs bloom contains exactly the bits of its logs",
  "The bloom of a list of logs is the union over every log's address and topics of the three bits given by the low 11 bits of the first three 16-bit words of their keccak hash. It is 256 bytes and empty for no logs.",
  ["inputs", "configurations"], "every hash value, up to the stated number of logs and topics, fork", "logs",
  ["bloom.py"], [("logs_bloom / add_to_bloom", "bloom.py")])
p("C32", "Ethash epoch, size and mixing arithmetic is exact",
  "Epoch, cache and dataset sizes, the FNV mix and the data access pattern follow the ethash specification for every block number, seed and nonce, and proof of work is accepted exactly when the mix digest matches and the result does not exceed 2^256 divided by the difficulty.",
  ["inputs"], "every block number within bounds, word values, difficulty, hash outcome", "epochs",
  ["src/ethereum/ethash.py", "fork.py"], [("epoch / cache_size / dataset_size / fnv / hashimoto", "ethash.py"), ("validate_proof_of_work", "fork.py")])
p("C33", "Precompiled contracts charge their gas and frame their input exactly",
  "Each fork exposes exactly its precompiled contracts at their addresses; each charges exactly its gas for every input length and content, reads its input zero-padded as defined, and returns the defined output or fails exactly on the malformed inputs the protocol names (signature ranges, field element and point encodings, modexp lengths, blake2 flag).",
  ["inputs", "configurations"], "every input within the length bound, gas, fork; elliptic-curve group operations opaque", "inputs",
  ["vm/precompiled_contracts/"], [("precompile bodies", "vm/precompiled_contracts/*.py"), ("address table", "vm/precompiled_contracts/mapping.py")])
p("C34", "Fork criteria order and activate forks at the right block or timestamp",
  "A fork scheduled by block number is active exactly from that block, one by timestamp exactly from that time, an unscheduled one never; criteria order block numbers before timestamps before unscheduled consistently as a total order. At the DAO fork every listed balance moves to the refund contract and nothing else changes.",
  ["inputs", "configurations"], "every block number, timestamp and criteria pair, every balance at the DAO fork", "activation points",
  ["src/ethereum/fork_criteria.py", "src/ethereum/dao_fork/dao.py"], [("ForkCriteria", "fork_criteria.py"), ("apply_dao", "dao_fork/dao.py")])
p("C35", "A block joins the chain exactly when its header commits to its execution",
  "After executing a block the chain accepts it exactly when the header's gas used, transactions root, receipts root, state root, bloom and, where present, withdrawals root, blob gas used and requests hash equal the computed ones, and rejects it otherwise leaving the list of blocks unchanged; only a child of the latest block can join. The chain keeps the latest 255 blocks and block hashes given to execution are those of the last 256 ancestors in order.",
  ["inputs", "histories", "configurations"], "every header field value and computed output value, chain lengths within bounds, fork", "blocks",
  ["fork.py"], [("state_transition / get_last_256_block_hashes", "fork.py")])
p("C36", "Addresses and utility encodings are derived exactly",
  "Contract addresses are the low 20 bytes of the keccak of the RLP of sender and nonce, or (CREATE2) of 0xff, sender, salt and init-code hash; word-to-address conversion masks to 160 bits. Ceiling, signedness, padding and little-endian word conversions are exact for every value.",
  ["inputs", "configurations"], "every sender, nonce, salt, hash, integer", "values",
  ["utils/address.py", "src/ethereum/utils/"], [("compute_contract_address / to_address_masked", "utils/address.py"), ("ceil32, get_sign ...", "src/ethereum/utils/*.py")])
p("C37", "A message execution reports its outcome faithfully to the transaction",
  "Running a top-level message yields exactly the remaining gas, capped refund, logs, accounts to delete and error of the execution: a failed one reports no logs and no refunds, a creation whose target already has code, nonce or storage fails with all gas consumed, and precompiles and delegated code run as their fork defines.",
  ["programs", "inputs", "configurations"], "every execution outcome, target account content, gas, fork", "messages",
  ["vm/interpreter.py", "utils/message.py"], [("process_message_call / prepare_message", "vm/interpreter.py, utils/message.py")])
p("C38", "The optimised state backend agrees with the specification state",
  "Every sequence of account and storage operations gives the same reads and the same state root on the optimised backend as on the specification state.",
  ["histories"], "every operation sequence", "histories", ["src/ethereum_optimized/"], [("state_db", "src/ethereum_optimized/state_db.py")])
p("C39", "The transition tool runs a block exactly as the specification does",
  "For every environment, allocation and list of transactions: the tool's block environment is the one the document gives, or the fork's own rules derive from the parent (base fee, difficulty, excess blob gas, at most 256 known ancestor hashes); system calls, transactions, rewards (ommers by their age; the given or no reward when asked), withdrawals and requests happen in the order and with the arguments of the fork's block rule; a rejected or unreadable transaction leaves no effect, is listed under its index and does not disturb the others; a state test runs the first transaction only; unsigned transactions are signed over the fork's signing hash, signed ones kept; the printed state, result, receipts and body say what was computed, the body is itself readable; only the tool's own earlier output files are removed.",
  ["programs", "inputs", "histories"], "every environment and parent value, allocation, transaction outcome and reward", "blocks with any rejected transactions",
  ["src/ethereum_spec_tools/evm_tools/t8n/", "src/ethereum_spec_tools/evm_tools/utils.py", "src/ethereum_spec_tools/evm_tools/loaders/fork_loader.py"],
  [("T8N", "src/ethereum_spec_tools/evm_tools/t8n/__init__.py"), ("Env", "src/ethereum_spec_tools/evm_tools/t8n/env.py"), ("Alloc, Txs, Result", "src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py")])
p("C40", "Hexadecimal text and JSON fixtures are read exactly",
  "Hexadecimal text, with or without 0x and in either case, is read as exactly the number or bytes it denotes, padded or refused as each reader says, and text with another character is refused; an account, header, withdrawal or transaction document becomes the object with exactly those values (the transaction's type following from its fields, its chain from chainId), values a fork does not know being left out.",
  ["inputs"], "every digit of every field", "hexadecimal text and JSON documents",
  ["src/ethereum/utils/hexadecimal.py", "src/ethereum_spec_tools/evm_tools/loaders/"],
  [("hex_to_*", "src/ethereum/utils/hexadecimal.py"), ("Load", "src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py"), ("TransactionLoad", "src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py")])
p("C41", "The genesis block is exactly its configuration",
  "Adding a genesis block to an empty chain gives a chain of one block whose header has exactly the configured values, the root of exactly the configured accounts (balances, nonces, code and storage, read in hexadecimal or decimal), the roots of empty lists, and the defaults of the fields the fork knows; a configuration file is read field by field.",
  ["inputs", "configurations"], "every configured value and account, fork", "genesis configurations",
  ["src/ethereum/genesis.py"], [("add_genesis_block / get_genesis_configuration", "src/ethereum/genesis.py")])
p("C42", "The block builder encodes exactly the block it is given",
  "The built block is the RLP list of the header's values in header order (a derived or default value only for what was left out), the given transactions, the ommers' headers and, if asked for, the withdrawals; the hash printed is the header's; each part is read from and written to the place named.",
  ["inputs", "configurations"], "every header value, transaction list, ommers, withdrawals", "documents given to the builder",
  ["src/ethereum_spec_tools/evm_tools/b11r/"], [("B11R.build_block", "src/ethereum_spec_tools/evm_tools/b11r/__init__.py"), ("Header / Body", "src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py")])
p("C43", "A trace lists exactly what was executed, and tracing changes nothing",
  "With any tracer set, a message has the outcome it has without. The EIP-3155 trace of a transaction has one entry for every instruction started (and for the end of the code, or the unknown or failing instruction), in order and in every frame, with its position, remaining gas, gas charged, depth, refund, stack and memory as they were, then a last entry with the gas used, output and error; precompiles and transactionless runs have none; each transaction has its own. Counting tracers count each instruction started.",
  ["programs", "inputs"], "values pushed, gas, failing instruction, child frame, fork", "traced executions",
  ["src/ethereum/trace.py", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/", "vm/interpreter.py", "vm/gas.py"],
  [("Eip3155Tracer", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/eip3155.py"), ("evm_trace events", "vm/interpreter.py, vm/gas.py")])

NA = {
 "C38": "the optimised backend is a compiled Rust extension (rust_pyspec_glue, LMDB) reached over FFI; its source is not in the repository and it cannot be executed symbolically here",
}

TECH = "symbolic execution of the real Python source with SMT (z3), counterexamples replayed on the real code"
NOTE = ("bounded: every value of the symbolic inputs within the bounds in evidence/<id>.json, on every feasible path; trusted: the "
        "executor's proxies (validated against the real code on solver-chosen inputs each run), z3, the reference rules in props/ and oracle/")

def main():
    for q in P:
        assert len(q[1]) <= 80, (q[0], len(q[1]))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for (i, title, st, over, qt, sampled, files, mech) in P:
            fl = [x if x.startswith("src/") else F + x for x in files]
            f.write(json.dumps({
                "id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
                "why_tests_cant": T + sampled + ", while the property quantifies over " + qt + ".",
                "anchors": {"files": fl, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            }) + "\n")
    built = {n[:-3].upper() for n in os.listdir(os.path.join(HERE, "props")) if n.startswith("c") and n.endswith(".py")}
    checks, na = [], []
    for (i, title, *_rest) in P:
        if i in built:
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                           "thorough_cmd": f"python3 check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                           "technique": TECH, "level": "model_checking", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt sx/selftest_ir.py 1 4000", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo. check.py re-reads /repo/src on every run."}, f, indent=1)
        f.write("\n")
main()
