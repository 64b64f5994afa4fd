From d4baf11eb7d8c065bfe6fae20513f55a037e621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 01/11] fix: reject typed transactions signed for another chain

EIP-2930, EIP-1559, EIP-4844 and EIP-7702 transactions carry a chain id that
has to be the chain's own; recover_sender only checked it for legacy
transactions, so a transaction for any other chain was executed.
---
 src/ethereum/arrow_glacier/transactions.py | 2 ++
 src/ethereum/berlin/transactions.py        | 2 ++
 src/ethereum/cancun/transactions.py        | 2 ++
 src/ethereum/gray_glacier/transactions.py  | 2 ++
 src/ethereum/london/transactions.py        | 2 ++
 src/ethereum/osaka/transactions.py         | 2 ++
 src/ethereum/paris/transactions.py         | 2 ++
 src/ethereum/prague/transactions.py        | 2 ++
 src/ethereum/shanghai/transactions.py      | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 751ed8f..32f91a0 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index 4832858..7ffe83d 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -337,6 +337,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98a82bd..b63f397 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -533,6 +533,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 751ed8f..32f91a0 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 751ed8f..32f91a0 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 90b1dee..f059fd1 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -665,6 +665,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 751ed8f..32f91a0 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index b4023f1..714ce64 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -657,6 +657,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 1dff83b..66db762 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -432,6 +432,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
-- 
2.43.0


From 51a0dd92d57f53bcf5b9d4f3768355df9ecb0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 02/11] fix: carry excess blob gas over the Prague and Osaka
 fork blocks

The parent of a fork's first block is a header of the fork before, so the
isinstance check treated its excess blob gas and blob gas used as zero.
That is right for Cancun only; later forks inherit them.
---
 src/ethereum/osaka/vm/gas.py  | 10 ++++++----
 src/ethereum/prague/vm/gas.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ethereum/osaka/vm/gas.py b/src/ethereum/osaka/vm/gas.py
index deb0371..9ce70e3 100644
--- a/src/ethereum/osaka/vm/gas.py
+++ b/src/ethereum/osaka/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.prague.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -281,7 +282,9 @@ def init_code_cost(init_code_length: Uint) -> Uint:
     return GAS_INIT_CODE_WORD_COST * ceil32(init_code_length) // Uint(32)
 
 
-def calculate_excess_blob_gas(parent_header: Header) -> U64:
+def calculate_excess_blob_gas(
+    parent_header: PreviousHeader | Header,
+) -> U64:
     """
     Calculated the excess blob gas for the current block based
     on the gas used in the parent block.
@@ -296,13 +299,12 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
+    # Before blobs were introduced, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
     base_fee_per_gas = Uint(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (PreviousHeader, Header)):
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
         base_fee_per_gas = parent_header.base_fee_per_gas
diff --git a/src/ethereum/prague/vm/gas.py b/src/ethereum/prague/vm/gas.py
index 065c5b3..a3756b3 100644
--- a/src/ethereum/prague/vm/gas.py
+++ b/src/ethereum/prague/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.cancun.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -277,7 +278,9 @@ def init_code_cost(init_code_length: Uint) -> Uint:
     return GAS_INIT_CODE_WORD_COST * ceil32(init_code_length) // Uint(32)
 
 
-def calculate_excess_blob_gas(parent_header: Header) -> U64:
+def calculate_excess_blob_gas(
+    parent_header: PreviousHeader | Header,
+) -> U64:
     """
     Calculated the excess blob gas for the current block based
     on the gas used in the parent block.
@@ -292,12 +295,11 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
+    # Before blobs were introduced, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (PreviousHeader, Header)):
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
 
-- 
2.43.0


From b4bcd6a18703aec7f8332a47166231931684cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 03/11] fix: check the gas limit of the London fork block

Only calculate_base_fee_per_gas checks the gas limit, and it is not called for
the first London block. EIP-1559 compares that block's limit with twice its
parent's.
---
 src/ethereum/london/fork.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 0d2c06f..2900206 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -325,6 +325,10 @@ def validate_header(chain: BlockChain, header: Header) -> None:
             parent_header.gas_used,
             parent_header.base_fee_per_gas,
         )
+    elif not check_gas_limit(
+        header.gas_limit, parent_header.gas_limit * ELASTICITY_MULTIPLIER
+    ):
+        raise InvalidBlock
 
     if expected_base_fee_per_gas != header.base_fee_per_gas:
         raise InvalidBlock
-- 
2.43.0


From c5ef5c80ddcc815facea526c4ad158957d2bbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 04/11] fix: compute the difficulty bomb of Frontier blocks
 from 200000 on

Adding a plain integer to a Uint raises TypeError, so every block from
number 200000 on was refused.
---
 src/ethereum/frontier/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 95407d2..78a539c 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -768,7 +768,7 @@ def calculate_block_difficulty(
     # See https://github.com/ethereum/go-ethereum/pull/1588
     num_bomb_periods = (int(block_number) // 100000) - 2
     if num_bomb_periods >= 0:
-        difficulty += 2**num_bomb_periods
+        difficulty += Uint(2**num_bomb_periods)
 
     # Some clients raise the difficulty to `MINIMUM_DIFFICULTY` prior to adding
     # the bomb. This bug does not matter because the difficulty is always much
-- 
2.43.0


From 98b7acfeefab1f5e4f4a3c164ece75497d946361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 05/11] fix: charge modexp for base lengths near 2**256 instead
 of overflowing

---
 .../arrow_glacier/vm/precompiled_contracts/modexp.py         | 5 ++---
 src/ethereum/berlin/vm/precompiled_contracts/modexp.py       | 5 ++---
 src/ethereum/byzantium/vm/precompiled_contracts/modexp.py    | 5 ++---
 src/ethereum/cancun/vm/precompiled_contracts/modexp.py       | 5 ++---
 .../constantinople/vm/precompiled_contracts/modexp.py        | 5 ++---
 src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py | 5 ++---
 src/ethereum/istanbul/vm/precompiled_contracts/modexp.py     | 5 ++---
 src/ethereum/london/vm/precompiled_contracts/modexp.py       | 5 ++---
 src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py | 5 ++---
 src/ethereum/paris/vm/precompiled_contracts/modexp.py        | 5 ++---
 src/ethereum/prague/vm/precompiled_contracts/modexp.py       | 5 ++---
 src/ethereum/shanghai/vm/precompiled_contracts/modexp.py     | 5 ++---
 12 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
index c5956d4..f982047 100644
--- a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
index c5956d4..f982047 100644
--- a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
index c5956d4..f982047 100644
--- a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/london/vm/precompiled_contracts/modexp.py b/src/ethereum/london/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/london/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/london/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
index c5956d4..f982047 100644
--- a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/paris/vm/precompiled_contracts/modexp.py b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/paris/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/prague/vm/precompiled_contracts/modexp.py b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/prague/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
diff --git a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
index 790d2fd..ad8613b 100644
--- a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
@@ -33,10 +33,8 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
-
     exp_head = U256.from_be_bytes(
-        buffer_read(data, exp_start, min(U256(32), exp_length))
+        buffer_read(data[96:], base_length, min(U256(32), exp_length))
     )
 
     charge_gas(
@@ -49,6 +47,7 @@ def modexp(evm: Evm) -> None:
         evm.output = Bytes()
         return
 
+    exp_start = U256(96) + base_length
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-- 
2.43.0


From 2b8c9fe877792e7d98524556a689b17e1fd589ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 06/11] fix: reject blocks that do not extend the latest block
 of a proof-of-work chain

---
 src/ethereum/arrow_glacier/fork.py     | 2 ++
 src/ethereum/berlin/fork.py            | 2 ++
 src/ethereum/byzantium/fork.py         | 2 ++
 src/ethereum/constantinople/fork.py    | 2 ++
 src/ethereum/dao_fork/fork.py          | 2 ++
 src/ethereum/frontier/fork.py          | 2 ++
 src/ethereum/gray_glacier/fork.py      | 2 ++
 src/ethereum/homestead/fork.py         | 2 ++
 src/ethereum/istanbul/fork.py          | 2 ++
 src/ethereum/london/fork.py            | 2 ++
 src/ethereum/muir_glacier/fork.py      | 2 ++
 src/ethereum/spurious_dragon/fork.py   | 2 ++
 src/ethereum/tangerine_whistle/fork.py | 2 ++
 13 files changed, 26 insertions(+)

diff --git a/src/ethereum/arrow_glacier/fork.py b/src/ethereum/arrow_glacier/fork.py
index ef4669a..88abf38 100644
--- a/src/ethereum/arrow_glacier/fork.py
+++ b/src/ethereum/arrow_glacier/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/berlin/fork.py b/src/ethereum/berlin/fork.py
index a2b59a5..4927852 100644
--- a/src/ethereum/berlin/fork.py
+++ b/src/ethereum/berlin/fork.py
@@ -163,6 +163,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/byzantium/fork.py b/src/ethereum/byzantium/fork.py
index 71b6ff1..fa81eb0 100644
--- a/src/ethereum/byzantium/fork.py
+++ b/src/ethereum/byzantium/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/constantinople/fork.py b/src/ethereum/constantinople/fork.py
index 404ff57..28eba34 100644
--- a/src/ethereum/constantinople/fork.py
+++ b/src/ethereum/constantinople/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/dao_fork/fork.py b/src/ethereum/dao_fork/fork.py
index 4b8fcf8..8a5c045 100644
--- a/src/ethereum/dao_fork/fork.py
+++ b/src/ethereum/dao_fork/fork.py
@@ -165,6 +165,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 78a539c..4e1d621 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/gray_glacier/fork.py b/src/ethereum/gray_glacier/fork.py
index 479d457..b1c05f3 100644
--- a/src/ethereum/gray_glacier/fork.py
+++ b/src/ethereum/gray_glacier/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/homestead/fork.py b/src/ethereum/homestead/fork.py
index 088e418..b974017 100644
--- a/src/ethereum/homestead/fork.py
+++ b/src/ethereum/homestead/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index 404ff57..28eba34 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 2900206..1958cd7 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -172,6 +172,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index 39e6e1f..f90aa7c 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/spurious_dragon/fork.py b/src/ethereum/spurious_dragon/fork.py
index e3652c9..0c5b028 100644
--- a/src/ethereum/spurious_dragon/fork.py
+++ b/src/ethereum/spurious_dragon/fork.py
@@ -156,6 +156,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/tangerine_whistle/fork.py b/src/ethereum/tangerine_whistle/fork.py
index 2489eb6..6b5eebd 100644
--- a/src/ethereum/tangerine_whistle/fork.py
+++ b/src/ethereum/tangerine_whistle/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
-- 
2.43.0


From 430d9fe887ae22e829d6e137063d8eccceb56fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 07/11] fix: pay the ommers listed in the transition tool's
 environment

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 7 +++----
 src/ethereum_spec_tools/evm_tools/t8n/env.py      | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 2fad681..cb367ae 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -217,13 +217,12 @@ class T8N(Load):
         )
 
         for ommer in self.env.ommers:
-            # Ommer age with respect to the current block.
-            ommer_age = U256(block_env.number - ommer.number)
+            # `delta` is the ommer age with respect to the current block.
             ommer_miner_reward = (
-                (U256(8) - ommer_age) * block_reward
+                (U256(8) - ommer.delta) * block_reward
             ) // U256(8)
             self.fork.create_ether(
-                block_env.state, ommer.coinbase, ommer_miner_reward
+                block_env.state, ommer.address, ommer_miner_reward
             )
 
     def run_state_test(self) -> Any:
diff --git a/src/ethereum_spec_tools/evm_tools/t8n/env.py b/src/ethereum_spec_tools/evm_tools/t8n/env.py
index 9a9a0bf..b1ff06b 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/env.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/env.py
@@ -23,7 +23,7 @@ if TYPE_CHECKING:
 class Ommer:
     """The Ommer type for the t8n tool."""
 
-    delta: str
+    delta: U256
     address: Any
 
 
@@ -323,7 +323,7 @@ class Env:
             for ommer in data["ommers"]:
                 ommers.append(
                     Ommer(
-                        ommer["delta"],
+                        parse_hex_or_int(ommer["delta"], U256),
                         t8n.fork.hex_to_address(ommer["address"]),
                     )
                 )
-- 
2.43.0


From 171671f9ee8de20be135f5c9a4cae4d84ed540a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 08/11] fix: report the blob gas used in the transition tool's
 result

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index d99b778..38aba78 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -319,6 +319,9 @@ class Result:
         if hasattr(block_env, "excess_blob_gas"):
             self.excess_blob_gas = block_env.excess_blob_gas
 
+        if hasattr(block_output, "blob_gas_used"):
+            self.blob_gas_used = block_output.blob_gas_used
+
         if hasattr(block_output, "requests"):
             self.requests = block_output.requests
             self.requests_hash = t8n.fork.compute_requests_hash(self.requests)
-- 
2.43.0


From e4ea19392509c245f969f65363e9a6db556369a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 09/11] fix: make the transition tool's system calls in the
 order of the specification

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index cb367ae..2e5fb5f 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -251,18 +251,18 @@ class T8N(Load):
         self.result.rejected = self.txs.rejected_txs
 
     def _run_blockchain_test(self, block_env: Any, block_output: Any) -> None:
-        if self.fork.is_after_fork("ethereum.prague"):
+        if self.fork.is_after_fork("ethereum.cancun"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
-                data=block_env.block_hashes[-1],  # The parent hash
+                target_address=self.fork.BEACON_ROOTS_ADDRESS,
+                data=block_env.parent_beacon_block_root,
             )
 
-        if self.fork.is_after_fork("ethereum.cancun"):
+        if self.fork.is_after_fork("ethereum.prague"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.BEACON_ROOTS_ADDRESS,
-                data=block_env.parent_beacon_block_root,
+                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
+                data=block_env.block_hashes[-1],  # The parent hash
             )
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
-- 
2.43.0


From ba53863dca010b9b1829827f7b0ea30ed75d5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 10/11] fix: write typed transactions with their type into the
 transition tool's body

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index 38aba78..f5d770b 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -178,11 +178,12 @@ class Txs:
             self.sign_transaction(raw_tx)
 
         tx = TransactionLoad(raw_tx, t8n.fork).read()
-        self.all_txs.append(tx)
 
         if t8n.fork.is_after_fork("ethereum.berlin"):
+            self.all_txs.append(t8n.fork.encode_transaction(tx))
             transaction = t8n.fork.decode_transaction(tx)
         else:
+            self.all_txs.append(tx)
             transaction = tx
 
         return transaction
-- 
2.43.0


From b7cfd06969102ea9c7edf059e8c725d5c2edbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 11/11] fix: read the chain of a JSON transaction from its
 chainId

---
 .../evm_tools/loaders/transaction_loader.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
index 2c4e652..1486ca8 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
@@ -42,7 +42,9 @@ class TransactionLoad:
 
     def json_to_chain_id(self) -> U64:
         """Get chain ID for the transaction."""
-        return U64(1)
+        if "chainId" not in self.raw:
+            return U64(1)
+        return parse_hex_or_int(self.raw["chainId"], U64)
 
     def json_to_nonce(self) -> U256:
         """Get the nonce for the transaction."""
-- 
2.43.0

