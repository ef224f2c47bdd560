From b57977745cf6af761afa9abb98a8dac577d2b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 01/12] fix: CmpBlock compares all 128 bits of a block, not
 only the low half

---
 crypto/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.h b/crypto/block.h
index 46df18b..5a557b8 100644
--- a/crypto/block.h
+++ b/crypto/block.h
@@ -68,7 +68,7 @@ typedef __m128i block;
 #define get_LSB(x) (*((unsigned short *)&x)&1)
 #define XorBlock(x,y) _mm_xor_si128((x),(y))
 #define ZeroBlock() _mm_setzero_si128()
-#define CmpBlock(X, Y) (_mm_extract_epi16((_mm_cmpeq_epi64((X), (Y))),0)==0xffff)
+#define CmpBlock(X, Y) (_mm_movemask_epi8(_mm_cmpeq_epi64((X), (Y)))==0xffff)
 #define MakeBlock(X,Y) _mm_set_epi64((__m64)(X), (__m64)(Y))
 #define DoubleBlock(B) _mm_slli_epi64(B,1)
 
-- 
2.43.0


From 0363dc548c4eb4115072aea74746ee23b2ec1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 02/12] fix: the evaluator answers the termination exchange,
 and both sides stop when the signal is 1

EvaluateTransferTerminate received twice where it has to send its own type
bit, so both parties waited forever, and both sides stopped when the type
bits were equal, i.e. when the decoded terminate signal was 0.
---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -618,8 +618,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From 377f8c33661d88f75d315f5508c09f01c215118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 03/12] fix: the evaluator keeps public-1 outputs it owns

The test for 'not owned by the garbler' was 'beyond the mask AND clear in
it', which never holds for a clear bit inside the mask, so a public 1 there
was reported as 0 to both parties.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From ac857fb4ba33cad8a3d0a8c09c30f7e81864c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 04/12] fix: the evaluator's table buffer starts without a
 table for any gate

EvalGate takes the entry at the current index when its gid matches; the
buffer was uninitialised, so a gate whose table the garbler had dropped could
match heap garbage (typically gid 0) and desynchronise the table index.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..51faaaa 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -479,6 +479,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);  // no table received yet.
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..8d7d36a 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);  // no table received yet.
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 97af70d238ecb66d30907c2e8ff9768e0010ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 05/12] fix: the evaluator rejects a table count larger than
 its table buffer

The count comes from the peer and was used unchecked as the length of the
receive into the buffer.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 51faaaa..50b0839 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -496,6 +496,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Number of garbled tables received by Bob is more than "
+                     "number of non-XOR gates.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 8d7d36a..2839c5c 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -274,6 +274,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Number of garbled tables received by Bob is more than "
+                     "number of non-XOR gates.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
-- 
2.43.0


From b5926881a225b67b22343aa47145a4b20b635917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 06/12] fix: a failed garbling, evaluation or fanout check is
 not reported as success

---
 garbled_circuit/garbled_circuit.cpp          |  4 ++--
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/garbled_circuit/garbled_circuit.cpp b/garbled_circuit/garbled_circuit.cpp
index f5ee567..12f299f 100644
--- a/garbled_circuit/garbled_circuit.cpp
+++ b/garbled_circuit/garbled_circuit.cpp
@@ -64,7 +64,7 @@ int GarbleStr(const string& scd_file_address, const string& p_init_str,
     LOG(ERROR) << "Error while reading scd file: " << scd_file_address << endl;
     return FAILURE;
   }
-  FillFanout(&garbled_circuit);
+  CHECK(FillFanout(&garbled_circuit));
 
   if (terminate_period != 0 && garbled_circuit.terminate_id == 0) {
     LOG(ERROR) << "There is no terminate signal in the circuit."
@@ -142,7 +142,7 @@ int EvaluateStr(const string& scd_file_address, const string& p_init_str,
     LOG(ERROR) << "Error while reading scd file: " << scd_file_address << endl;
     return FAILURE;
   }
-  FillFanout(&garbled_circuit);
+  CHECK(FillFanout(&garbled_circuit));
 
   if (terminate_period != 0 && garbled_circuit.terminate_id == 0) {
     LOG(ERROR) << "There is no terminate signal in the circuit."
diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 50b0839..bec5341 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From 062cbdbead895208547160319a9abc6e4a5547c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 07/12] fix: SendBN and RecvBN release their array with
 delete[]

---
 crypto/BN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..7b1bba8 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -130,7 +130,7 @@ int RecvBN(int connf, BIGNUM *bignum) {
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
-- 
2.43.0


From 31717dd31d550e319210aa6d649550fe132b5359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 08/12] fix: a failed plaintext evaluation is not reported as
 success

---
 scd/scd_evaluator.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..fe887cb 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -291,12 +291,15 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
-
-  OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
-                      outputs_str);
+  CHECK(
+      EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
+
+  CHECK(
+      OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
+                          outputs_str));
   return SUCCESS;
 }
 
-- 
2.43.0


From c95eab89540f656fd35c8921481911cf5d35e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 09/12] fix: hash OT-extension rows with the zero padding in
 front, so different rows never hash alike

---
 crypto/OT_extension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..9f868fb 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -69,11 +69,11 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   
   int diff_words = v_words - (int) SEC_K_BIT / 8;
   if (diff_words <= 0) {
-    BN_CHECK(EVP_DigestUpdate(mdctx, /*v->d*/v_arr, v_words));
     for (int i = 0; i < -diff_words; i++) {
       char c = 0;
       BN_CHECK(EVP_DigestUpdate(mdctx, &c, 1));
     }
+    BN_CHECK(EVP_DigestUpdate(mdctx, /*v->d*/v_arr, v_words));
   } else {
     BN_CHECK(EVP_DigestUpdate(mdctx, /*v->d*/v_arr+diff_words, SEC_K_BIT/8));
   }
-- 
2.43.0


From 2f3da0d52027d283a93a67c4d26c6b7e8bee1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 10/12] fix: SortNetlist renumbers references to wire 0 like
 every other wire

---
 scd/scheduling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..36076a1 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -459,11 +459,11 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
 
   for (int64_t i = 0; i < (int64_t) read_circuit->dff_size; i++) {
-    if (read_circuit->dff_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[0] = sorted_list_1[read_circuit->dff_list[i]
           .input[0]];
     }
-    if (read_circuit->dff_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[1] = sorted_list_1[read_circuit->dff_list[i]
           .input[1]];
     }
@@ -472,14 +472,14 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->gate_size; i++) {
     read_circuit->gate_list[i].output = sorted_list_1[init_input_dff_size + i];
-    if (read_circuit->gate_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[0] =
           sorted_list_1[read_circuit->gate_list[i].input[0]];
       CHECK_EXPR_MSG(
           read_circuit->gate_list[i].input[0] < read_circuit->gate_list[i].output,
           "input 0 is larger than gate id");
     }
-    if (read_circuit->gate_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[1] =
           sorted_list_1[read_circuit->gate_list[i].input[1]];
       CHECK_EXPR_MSG(
-- 
2.43.0


From fcc4180d77c04f9ae44d212419d8b59962aaefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 11/12] fix: string conversions lost everything beyond 65535
 characters or 255 outputs

hex2bin, bin2hex and parseGCOutputString counted characters in uint16_t and
outputs in uint8_t, so longer strings were silently cut.
---
 util/util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..d91da8f 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -258,8 +258,8 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 
  void parseGCOutputString(vector<int64_t> &output, string output_str, vector<uint16_t> bit_len, uint16_t offset){
 	string bin_output_str = hex2bin(output_str);
-	uint8_t no_of_outputs = output.size();
-	uint16_t len = offset;
+	uint64_t no_of_outputs = output.size();
+	uint64_t len = offset;
 	uint64_t i;
 	for (i = 0; i < no_of_outputs; i++){
 		len += bit_len[i];
@@ -267,7 +267,7 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 	if (len > bin_output_str.length()) bin_output_str.insert(0, len-bin_output_str.length(), '0');
 	else if (len < bin_output_str.length()) bin_output_str = bin_output_str.substr(bin_output_str.length()-len, len);
 	
-	uint16_t cur = 0;
+	uint64_t cur = 0;
 	for (i = 0; i < no_of_outputs; i++){
 		output[i] = bin2dec(bin_output_str.substr(cur, bit_len[i]), true);
 		cur += bit_len[i];
@@ -305,7 +305,7 @@ int64_t bin2dec(string bin, bool s){
 }
 
 string hex2bin(string hex_){
-	uint16_t len = hex_.length();
+	uint64_t len = hex_.length();
 	string bin("");
 	
 	for (uint64_t i = 0; i < len; i++){
@@ -333,7 +333,7 @@ string hex2bin(string hex_){
 }
 
 string bin2hex(string bin){
-	uint16_t len = bin.length();
+	uint64_t len = bin.length();
 	bin.insert(0, 4-len%4, '0');
 	len = bin.length();
 	string hex_("");
-- 
2.43.0


From 945c8481a274d9ac0ad049474f80699090e047f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:32 +0000
Subject: [PATCH 12/12] fix: HashBN left the last bits % 8 bits of a message
 width unmasked

---
 crypto/OT_extension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 9f868fb..163613d 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -82,7 +82,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
 
-  BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
+  BN_CHECK(BN_bin2bn(md_value, (bits + 7) / 8, r));
 
   return SUCCESS;
 }
-- 
2.43.0

