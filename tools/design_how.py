HOW = {
"C01": """For each fork and opcode the instruction function is called on a frame with symbolic operands and symbolic gas. The oracle is the yellow paper's definition over mathematical integers
(signed division truncated, MULMOD without intermediate reduction, ...). Decided: pushed word, gas left or out-of-gas, program counter, untouched rest of the stack. EXP's power is an uninterpreted function of
base and exponent whose gas (by exponent byte) is exact. A test samples operands; the sign and overflow corners are single points of 2^512.""",
"C02": """As C01, for comparison, bitwise, byte, shift and bit-counting operations; the oracle is arithmetic (floor division and modulo by powers of two, per-bit definitions), the code is bitwise, and z3 (bit fields, then
bit-vectors) settles the equality for all words and all shift amounts.""",
"C03": """Stack depths are symbolic: every opcode of every fork is run on a stack of each length below its arity and of a length next to the limit; PUSH runs on symbolic code around the position so that truncated data is covered.
DUP and SWAP are checked on the full stack contents.""",
"C04": """Memory is a symbolic array of symbolic length, offsets and sizes are arbitrary words, gas is symbolic; after the instruction an arbitrary byte index of the new memory is compared with the oracle's
(an if-then-else over source ranges). Expansion cost is the quadratic formula over mathematical integers. Overlapping MCOPY and two expansions in one instruction are just values of the offsets.""",
"C05": """As C04 with a symbolic source (calldata, code, other account's code, return data) of symbolic length; KECCAK256 must hash exactly the addressed bytes (hash as uninterpreted function of the byte string).""",
"C06": """`h_flow`/`h_classes`: JUMP and JUMPI with symbolic destination over a symbolic set of valid destinations. `h_dests`: `get_valid_jump_destinations` on fully symbolic code of a bounded length against an oracle scan.
`h_table`: every byte 0 to 255 as first instruction, opcode defined or not by fork. `h_program`: programs of symbolic bytes executed by the real `execute_code` and by the oracle's interpreter, side by side.""",
"C07": """A symbolic environment (every field), the instruction, and the expected field; BLOCKHASH with a symbolic number and chain of symbolic length, BLOBHASH with symbolic index, BLOBBASEFEE with symbolic excess gas.""",
"C08": """A real `State` with symbolic original/current values and symbolic slot is put under SSTORE/SLOAD/TLOAD/TSTORE; oracle: the tables of the yellow paper, EIP-1283 / EIP-2200 / EIP-2929 / EIP-3529. All
combinations of zero/non-zero/equal values, warm and cold, are values of the same query.""",
"C09": """Sequences of accesses at symbolic addresses (equal or different, precompile or not) are executed as instructions in one frame, with the oracle keeping the accessed sets; a child frame fails or succeeds
(`h_frames`) and the parent's price afterwards is compared.""",
"C10": """LOGn on symbolic memory, symbolic offset, size, topics and gas; the appended log is compared field by field, data at an arbitrary index.""",
"C11": """Every writing instruction on arbitrary operands in a static frame must end in WriteInStaticContext (or a cheaper halt) and leave a recorded state unchanged; the call opcodes must pass staticness on.""",
"C12": """Each call opcode is executed with every operand symbolic over a real state; `process_message` is a recorder that captures the child's message and returns an arbitrary outcome (gas left, output, error, logs, refund). Gas,
child message, output copy, return data, stack result, accessed addresses and merged effects are compared with the oracle.""",
"C13": """As C12 for CREATE/CREATE2, with collisions, nonce limits, depth and balance made symbolic.""",
"C14": """SELFDESTRUCT with originator and beneficiary symbolic (equal or not), symbolic balances, existence and emptiness of the beneficiary, creation in this transaction or not.""",
"C15": """The real `process_message` / `process_create_message` run with `execute_code` replaced by an adversary that performs symbolic state changes and ends in success, revert or exceptional halt; the whole state is read
back at symbolic keys and compared with the state before (or with the adversary's writes).""",
"C16": """Bounded sequences of operations (account, storage, transient writes, begin, commit, rollback) with symbolic keys on the real state module, against an oracle keeping a stack of maps; observed at symbolic keys.""",
"C17": """Each primitive on a state of symbolic accounts, then every account is read back.""",
"C18": """A transaction of each type with symbolic fields; calldata is a byte string whose zero and non-zero bytes are symbolic (short, per byte) or whose counts are symbolic (`h_long`).""",
"C19": """`check_transaction` on a symbolic transaction, block environment, block output and sender account; acceptance and error are compared with the rule list.""",
"C20": """`process_transaction` with a symbolic transaction, environment, accounts and an arbitrary execution outcome; balances, nonce, gas totals, receipts, deleted accounts are compared with the accounting rules over mathematical integers.""",
"C21": """`recover_sender` and the signing hashes on symbolic signatures and fields: accepted exactly if the rules hold, and the recovery is asked for exactly the right (r, s, parity, hash); the hash preimage is compared with
the oracle's own RLP encoder.""",
"C22": """Transactions of each type (symbolic fields, bounded data, lists) go through encode, decode and hash; the oracle is an independent RLP encoder/decoder; unknown type bytes are symbolic.""",
"C23": """`check_gas_limit` and `calculate_base_fee_per_gas` on arbitrary integers; `validate_header` with all else valid must agree with the oracle.""",
"C24": """`validate_header` on a fully symbolic header over a symbolic parent; accepted if and only if the conjunction of the fork's rules holds (both directions).""",
"C25": """`calculate_block_difficulty` over arbitrary block number, timestamps, parent difficulty; the bomb's power of two is handled by case split over the period.""",
"C26": """`calculate_excess_blob_gas` and limits over all values, `calculate_blob_gas_price` (Taylor loop) over the excess range the bound states, against an oracle recurrence over mathematical integers.""",
"C27": """`validate_ommers` on one or two symbolic ommers (fields, ages, relation to a chain of symbolic headers), more than two, duplicates; `pay_rewards` with symbolic numbers of ommers and equal beneficiaries; balances compared.""",
"C28": """`apply_body` with its parts replaced by recorders (order and arguments of system calls, transactions, withdrawals, requests); `process_withdrawals` on a symbolic list over a real state (equal addresses allowed); deposit extraction from logs of symbolic layout words; the requests commitment.""",
"C29": """`set_delegation` on one or two symbolic authorizations over a real state, signer recovery arbitrary: applied exactly if every condition holds, nonce, code, refund and accessed set compared; `h_sig` checks what is recovered and from which bytes.""",
"C30": """The real trie code on a bounded set of keys whose relations (shared prefixes) are enumerated by path exploration and whose values are symbolic; the root is compared with an independent recursive definition, hash uninterpreted.""",
"C31": """`logs_bloom` on a bounded list of logs; an arbitrary bit of the result is compared with the definition, with the entry's hash symbolic.""",
"C32": """Ethash's sizes, caches, mixes and access pattern with uninterpreted keccak against the ethash specification over integers (dataset item, hashimoto and cache rounds on bounded row counts).""",
"C33": """Each precompile with symbolic input (contents and length), symbolic gas; curve operations are uninterpreted functions, so what is decided is gas, framing, validity checks, error kind and that exactly the right points and
scalars are handed over. The fork's table of addresses is compared in full.""",
"C34": """Criteria objects with symbolic block numbers and timestamps: `check`, ordering laws (antisymmetry, transitivity, totality) for every pair/triple; mainnet's schedule; `apply_dao` over every listed account with symbolic balances.""",
"C35": """`state_transition` and `apply_body`'s consumer with symbolic header and symbolic computed values; accepted exactly if they all agree, chain unchanged otherwise, chain trimmed to 255; `h_whole` runs a real empty-bodied block.""",
"C36": """Address derivations over symbolic senders, nonces, salts and codes against the oracle's RLP; numeric and padding helpers over all integers / bytes in the bound.""",
"C37": """`process_message_call` with a recorder for the execution, and for creations and delegated code with the real `process_create_message`; outcome fields are compared one by one.""",
"C39": """The real tool (`T8N`) is made from a symbolic document and run from argument to printed result, transactions and system parts being recorders with symbolic effects given alike to the fork's own `apply_body`:
events, arguments, block environment, final state, gas, rejections are compared with that run. Reading text is symbolic (`SymStr`: text of free hexadecimal digits). Derived values are compared with the fork's header rules.""",
"C40": """Every reader on text whose digits are solver variables; documents with every field free, compared with the values the digits denote and, for states, with the state read back at symbolic keys.""",
"C41": """`add_genesis_block` on configurations with symbolic accounts, storage and values; the header is compared field by field and the root with the independent trie definition of C30.""",
"C42": """The real tool on a symbolic document; its printed block and hash are compared with an independent RLP encoding of the values the digits denote.""",
"C43": """Programs with symbolic pushed values and gas run through the real interpreter with the real tracers; entries are compared with an independent miniature machine, and the outcome with an untraced run.""",
}
