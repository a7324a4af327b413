From 87f81d4e054cab29077e4c7d60f2005a36ad7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 01/30] fix: deliver public 1 outputs below the top of the mask
 to Bob

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From 90b451b966d82c0b3048b965e196237c40ec81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 02/30] fix: Bob sends his terminate bit instead of waiting for
 a second one

---
 garbled_circuit/garbled_circuit_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..5fb0f69 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -618,7 +618,7 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     (*is_terminate) = (terminate_type == garble_terminate_type);
   }
 
-- 
2.43.0


From cf3e883cbcfe4eeefa76d395d5b4d8c68387da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 03/30] fix: a secret terminate signal ends the run when it is
 1, not 0

---
 garbled_circuit/garbled_circuit_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 5fb0f69..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -619,7 +619,7 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From dc40fc98d38701c32d83e56b0dd8a29668666da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 04/30] fix: a failed garbling or evaluation in high-memory
 mode fails the run

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..b3d39ed 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From 3939f6e5154c1c428470fd014f6761a15e9681cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 05/30] fix: bound the number of garbled tables Bob accepts by
 the circuit

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 ++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index b3d39ed..7307364 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -495,6 +495,8 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Alice sent more garbled tables than the circuit has.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..da0bef9 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -271,6 +271,8 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Alice sent more garbled tables than the circuit has.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
-- 
2.43.0


From ef15d188985d1f66b4d5d0ffdb024a30804f4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 06/30] fix: do not match gate ids against uninitialised
 garbled tables

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 7307364..980f12f 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -481,6 +481,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);  // no table received yet
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index da0bef9..4f7d677 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);  // no table received yet
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 877e0a6be7127c540706e79f1acdc73adcb96b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 07/30] fix: release the received messages of each cycle's
 transfer

---
 garbled_circuit/garbled_circuit_low_mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 4f7d677..5efcdb2 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -964,6 +964,7 @@ int EvalauteOTInputLowMem(const GarbledCircuit& garbled_circuit,
   }
 
   delete[] select;
+  delete[] message;
 
   return SUCCESS;
 }
-- 
2.43.0


From 50a5bd2e2f02c50955ddb45a07dc7ffe468bd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 08/30] fix: release big-number buffers with delete[]

---
 crypto/BN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..7b1bba8 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -130,7 +130,7 @@ int RecvBN(int connf, BIGNUM *bignum) {
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
-- 
2.43.0


From 75afe77ebe9055ffa1637c9c30ac55e2e90bd172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 09/30] fix: reject a negative or unallocatable big-number size
 from the peer

---
 crypto/BN.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 7b1bba8..0958d60 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -127,7 +127,9 @@ int RecvBN(int connf, BIGNUM *bignum) {
   CHECK(RecvData(connf, bignum->d, bignum->dmax * sizeof(BN_ULONG)));*/
   int size;
   CHECK(RecvData(connf, &size, sizeof(int)));
-  unsigned char* bn_arr = new unsigned char[size];
+  CHECK_EXPR_MSG(size >= 0, "negative big number size");
+  unsigned char* bn_arr = nullptr;
+  CHECK_ALLOC(bn_arr = new unsigned char[size]);
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
   delete[] bn_arr;
-- 
2.43.0


From cbba17366431972725ac389495c837d6c6d146ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 10/30] fix: plaintext evaluation failures reach the exit
 status

---
 scd/scd_evaluator.cpp      | 15 +++++++++------
 scd/scd_evaluator_main.cpp |  8 +++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..fe887cb 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -291,12 +291,15 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
-
-  OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
-                      outputs_str);
+  CHECK(
+      EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
+
+  CHECK(
+      OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
+                          outputs_str));
   return SUCCESS;
 }
 
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 356e177..ab995b1 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -122,9 +122,11 @@ int main(int argc, char*argv[]) {
   string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
 
   string output_str;
-  EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str, e_init_str,
-                        p_input_str, g_input_str, e_input_str, clock_cycles,
-                        terminate_period, output_mode, &output_str);
+  CHECK(
+      EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
+                            e_init_str, p_input_str, g_input_str, e_input_str,
+                            clock_cycles, terminate_period, output_mode,
+                            &output_str));
 
   std::cout << output_str << endl;
 
-- 
2.43.0


From 51cb95d2275b780cdb120df15184fb1b9cd55082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 11/30] fix: transfer lengths beyond 2 GB are not truncated to
 int

SendData/RecvData took an int length, so a buffer of 2 GB or more (44 million
garbled tables in one cycle) was silently skipped or cut and reported as sent.
---
 tcpip/tcpip.cpp | 15 ++++++++-------
 tcpip/tcpip.h   |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index bc975de..e1539d9 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -136,14 +136,14 @@ int ClientClose(int sock) {
   return SUCCESS;
 }
 
-int SendData(int sock, const void *var, int len) {
+int SendData(int sock, const void *var, int64_t len) {
   if (len <= 0)
     return SUCCESS;
 
-  int remain_len = 0;
+  int64_t remain_len = 0;
   do {
-    int len_ret = write(sock, (const char *) var + remain_len,
-                        len - remain_len);
+    ssize_t len_ret = write(sock, (const char *) var + remain_len,
+                            len - remain_len);
     if (len_ret == FAILURE) {
       LOG(ERROR) << strerror(errno) << endl;
       return FAILURE;
@@ -157,14 +157,15 @@ int SendData(int sock, const void *var, int len) {
   return SUCCESS;
 }
 
-int RecvData(int sock, void* var, int len) {
+int RecvData(int sock, void* var, int64_t len) {
 
   if (len <= 0)
     return SUCCESS;
 
-  int remain_len = 0;
+  int64_t remain_len = 0;
   do {
-    int len_ret = read(sock, (char *) var + remain_len, len - remain_len);
+    ssize_t len_ret = read(sock, (char *) var + remain_len,
+                           len - remain_len);
     if (len_ret == FAILURE) {
       LOG(ERROR) << strerror(errno) << endl;
       return FAILURE;
diff --git a/tcpip/tcpip.h b/tcpip/tcpip.h
index d274acf..feada28 100644
--- a/tcpip/tcpip.h
+++ b/tcpip/tcpip.h
@@ -29,7 +29,7 @@ int ServerClose(int sock);
 int ClientInit(const char* ip, int port);
 int ClientClose(int sock);
 
-int SendData(int sock, const void *var, int len);
-int RecvData(int sock, void* var, int len);
+int SendData(int sock, const void *var, int64_t len);
+int RecvData(int sock, void* var, int64_t len);
 
 #endif /* TCPIP_TCPIP_H_ */
-- 
2.43.0


From 495e9cd10917193028d97efa2f5e157a6f423110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 12/30] fix: builds without logging no longer ignore every
 failure

With ENABLE_LOG off (the default) CHECK, CHECK_EXPR, CHECK_ALLOC and BN_CHECK
evaluated their argument and dropped the result.
---
 util/log.cpp |  1 -
 util/log.h   | 11 +++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/util/log.cpp b/util/log.cpp
index 1db94f2..eb4b164 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -40,7 +40,6 @@ bool dump_enabled = false;
 map<string, ofstream*> dump_map;
 ostream* log_map[2];  // ERROR, INFO
 DummyLog dummy_log;
-bool __dummy_expr__;
 
 DummyLog& DummyLogStream() {
   return dummy_log;
diff --git a/util/log.h b/util/log.h
index c884ef9..d4d6861 100644
--- a/util/log.h
+++ b/util/log.h
@@ -72,13 +72,12 @@ class DummyLog : public ostream {
 #define BN_CHECK(X) if((X)==0) { LOG(ERROR) << #X << " failed" \
   << std::endl; return FAILURE; }
 #else /* ENABLE_LOG */
-extern bool __dummy_expr__;
-#define CHECK_ALLOC(X) X
+#define CHECK_ALLOC(X) try { X; } catch (std::bad_alloc& e) { return FAILURE; }
 #define LOG(X) DummyLogStream()
-#define CHECK_EXPR(X) __dummy_expr__ = X
-#define CHECK_EXPR_MSG(X, Y) __dummy_expr__ = X
-#define CHECK(X) X
-#define BN_CHECK(X) X
+#define CHECK_EXPR(X) if((X)==false) { return FAILURE; }
+#define CHECK_EXPR_MSG(X, Y) if((X)==false) { return FAILURE; }
+#define CHECK(X) if((X)==FAILURE) { return FAILURE; }
+#define BN_CHECK(X) if((X)==0) { return FAILURE; }
 #endif /* ENABLE_LOG */
 
 void LogInitial(int argc, char *argv[]);
-- 
2.43.0


From 26504e4be8ef251ef5e1358428bf24d6288786a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 13/30] fix: a failing listen() is reported

---
 tcpip/tcpip.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index e1539d9..0f9526e 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -60,7 +60,10 @@ int ServerOpenSocket(int port) {
     LOG(INFO) << strerror(errno) << endl;
     return FAILURE;
   }
-  listen(listenfd, 5);
+  if (listen(listenfd, 5) < 0) {
+    LOG(ERROR) << strerror(errno) << endl;
+    return FAILURE;
+  }
   return SUCCESS;
 }
 
-- 
2.43.0


From 0165f25449f98ce45863ec1a0792e1fe9c84d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:38 +0000
Subject: [PATCH 14/30] fix: oblivious transfer stops when its random values or
 context cannot be had

---
 crypto/OT.cpp           | 2 ++
 crypto/OT_extension.cpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index b7fb186..fae24f6 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -32,6 +32,7 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
   ctx = BN_CTX_new();
   if (ctx == nullptr) {
     LOG(ERROR) << "allocating ctx failed." << endl;
+    return FAILURE;
   }
 
   // 0. check the vector size
@@ -117,6 +118,7 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
   ctx = BN_CTX_new();
   if (ctx == nullptr) {
     LOG(ERROR) << "allocating ctx failed." << endl;
+    return FAILURE;
   }
   BIGNUM* rsa_n = BN_new();
   BIGNUM* rsa_e = BN_new();
diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..94f38c6 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -133,7 +133,7 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
 
   // 0. generate random k-bit s
   BIGNUM* S = BN_new();
-  BN_rand(S, SEC_K_BIT, -1, 0);
+  BN_CHECK(BN_rand(S, SEC_K_BIT, -1, 0));
 
   BIGNUM** Q = new BIGNUM*[SEC_K_BIT];
   for (uint32_t i = 0; i < SEC_K_BIT; i++) {
@@ -188,7 +188,7 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
     for (uint32_t j = 0; j < 2; j++) {
       T[i][j] = BN_new();
     }
-    BN_rand(T[i][0], SEC_K_BIT, -1, 0);
+    BN_CHECK(BN_rand(T[i][0], SEC_K_BIT, -1, 0));
     int sel_bit = BN_is_bit_set(sel, i);
     if (sel_bit == 1) {
       BN_CHECK(BN_copy(T[i][1], T[i][0]));
-- 
2.43.0


From cdd4fa4f3594d4f71edc7d6509b32b4c67d04feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 15/30] fix: inputs that are not hexadecimal are reported
 instead of read as something else

---
 garbled_circuit/garbled_circuit_high_mem.cpp |  4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  |  4 ++--
 garbled_circuit/garbled_circuit_util.cpp     |  4 ++--
 scd/scd_evaluator.cpp                        | 12 ++++++------
 util/util.cpp                                |  9 +++++++++
 util/util.h                                  |  1 +
 6 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 980f12f..9778721 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1036,7 +1036,7 @@ int GarbleTransferOutput(const GarbledCircuit& garbled_circuit,
                          OutputMode output_mode, BIGNUM* output_bn,
                          int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
@@ -1077,7 +1077,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
                            OutputMode output_mode, BIGNUM* output_bn,
                            int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 5efcdb2..4393b82 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1103,7 +1103,7 @@ int GarbleTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                const string& output_mask, BIGNUM* output_bn,
                                int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
@@ -1150,7 +1150,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                  const string& output_mask, BIGNUM* output_bn,
                                  int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(Hex2BN(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index e912451..27c96ee 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -70,8 +70,8 @@ void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
 int ParseInitInputStr(const string& init_str, const string&input_str,
                       uint64_t init_size, uint64_t input_size,
                       uint64_t clock_cycles, BIGNUM** init, BIGNUM** input) {
-  BN_hex2bn(init, init_str.c_str());
-  BN_hex2bn(input, input_str.c_str());
+  CHECK(Hex2BN(init_str, init));
+  CHECK(Hex2BN(input_str, input));
 
   return SUCCESS;
 }
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index fe887cb..2bbf788 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -264,12 +264,12 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   BIGNUM* g_input = BN_new();
   BIGNUM* e_input = BN_new();
 
-  BN_hex2bn(&p_init, p_init_str.c_str());
-  BN_hex2bn(&g_init, g_init_str.c_str());
-  BN_hex2bn(&e_init, e_init_str.c_str());
-  BN_hex2bn(&p_input, p_input_str.c_str());
-  BN_hex2bn(&g_input, g_input_str.c_str());
-  BN_hex2bn(&e_input, e_input_str.c_str());
+  CHECK(Hex2BN(p_init_str, &p_init));
+  CHECK(Hex2BN(g_init_str, &g_init));
+  CHECK(Hex2BN(e_init_str, &e_init));
+  CHECK(Hex2BN(p_input_str, &p_input));
+  CHECK(Hex2BN(g_input_str, &g_input));
+  CHECK(Hex2BN(e_input_str, &e_input));
 
   LOG(INFO) << "p_init = " << BN_bn2hex(p_init) << "\tg_init = "
             << BN_bn2hex(g_init) << "\te_init = " << BN_bn2hex(e_init)
diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..c4c2f65 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -194,6 +194,15 @@ string to_string_hex(uint64_t v, int pad /* = 0 */) {
   return ret;
 }
 
+// unlike BN_hex2bn, the whole string has to be hexadecimal digits.
+int Hex2BN(const string& hex_str, BIGNUM** v) {
+  if (BN_hex2bn(v, hex_str.c_str()) != (int) hex_str.length()) {
+    LOG(ERROR) << "not a hexadecimal number: " << hex_str << endl;
+    return FAILURE;
+  }
+  return SUCCESS;
+}
+
 int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                         uint64_t clock_cycles, OutputMode output_mode,
                         string *output_str) {
diff --git a/util/util.h b/util/util.h
index 6876ef5..8a6ac63 100644
--- a/util/util.h
+++ b/util/util.h
@@ -35,6 +35,7 @@ unsigned short Type2V(int gateType);
 bool GateOperator(int gateType, bool input0, bool input1 = false);
 int Str2Block(const string &s, block* v);
 string to_string_hex(uint64_t v, int pad = 0);
+int Hex2BN(const string& hex_str, BIGNUM** v);
 int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                         uint64_t clock_cycles, OutputMode output_mode,
                         string *output_str);
-- 
2.43.0


From 6e73b5ff27302a9fc0995254c22e923e668a331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 16/30] fix: a circuit whose gates are not in order is
 rejected, not evaluated

---
 garbled_circuit/garbled_circuit.cpp      | 4 ++--
 garbled_circuit/garbled_circuit_util.cpp | 6 +-----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/garbled_circuit/garbled_circuit.cpp b/garbled_circuit/garbled_circuit.cpp
index f5ee567..12f299f 100644
--- a/garbled_circuit/garbled_circuit.cpp
+++ b/garbled_circuit/garbled_circuit.cpp
@@ -64,7 +64,7 @@ int GarbleStr(const string& scd_file_address, const string& p_init_str,
     LOG(ERROR) << "Error while reading scd file: " << scd_file_address << endl;
     return FAILURE;
   }
-  FillFanout(&garbled_circuit);
+  CHECK(FillFanout(&garbled_circuit));
 
   if (terminate_period != 0 && garbled_circuit.terminate_id == 0) {
     LOG(ERROR) << "There is no terminate signal in the circuit."
@@ -142,7 +142,7 @@ int EvaluateStr(const string& scd_file_address, const string& p_init_str,
     LOG(ERROR) << "Error while reading scd file: " << scd_file_address << endl;
     return FAILURE;
   }
-  FillFanout(&garbled_circuit);
+  CHECK(FillFanout(&garbled_circuit));
 
   if (terminate_period != 0 && garbled_circuit.terminate_id == 0) {
     LOG(ERROR) << "There is no terminate signal in the circuit."
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 27c96ee..6671de3 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -492,11 +492,7 @@ int FillFanout(GarbledCircuit* garbled_circuit) {
     }
   }
 
-  for (int64_t gid = 0; gid < (int64_t) garbled_circuit->gate_size; gid++) {
-    CHECK_EXPR_MSG(
-        (garbled_circuit->garbledGates[gid].fanout > 0),
-        "Non-positive fanout initialization: gid = " + std::to_string(gid));
-  }
+  // a gate that nothing reads (fanout == 0) is skipped by both parties.
 
   return SUCCESS;
 }
-- 
2.43.0


From 9857fe8fbbed425610ae154f953f471dcd986438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 17/30] fix: a missing hash function is reported at start

---
 garbled_circuit/garbled_circuit_main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/garbled_circuit/garbled_circuit_main.cpp b/garbled_circuit/garbled_circuit_main.cpp
index f1c6087..4be5091 100644
--- a/garbled_circuit/garbled_circuit_main.cpp
+++ b/garbled_circuit/garbled_circuit_main.cpp
@@ -135,7 +135,10 @@ int CheckOptionsBob(const string& scd_file_address, uint64_t clock_cycles,
 int main(int argc, char* argv[]) {
 
   LogInitial(argc, argv);
-  HashInit();
+  if (HashInit() == FAILURE) {
+    LOG(ERROR) << "Cannot initialize the hash function" << endl;
+    return FAILURE;
+  }
   srand(time(0));
   SrandSSE(time(0));
 
-- 
2.43.0


From 53dbb1d24965ed234ed53ffad6c33ccc1e41978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 18/30] fix: truncated or unwritable scd files are reported

---
 scd/scd.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 2bcf3ad..c795c23 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -114,6 +114,10 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     f >> garbled_circuit->I[i];
   }
 
+  if (f.fail()) {
+    LOG(ERROR) << file_name << " is not a complete scd file" << endl;
+    return FAILURE;
+  }
   f.close();
 
   return SUCCESS;
@@ -187,6 +191,10 @@ int WriteSCD(const ReadCircuit& read_circuit, const string &file_name) {
   f << endl;
 
   f.close();
+  if (f.fail()) {
+    LOG(ERROR) << "can't write " << file_name << endl;
+    return -1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 7d3049027ada9343723727f622a2d673c384bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 19/30] fix: unwritable mapping and simulation files are
 reported

---
 scd/scd_evaluator.cpp | 5 +++++
 scd/scheduling.cpp    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 2bbf788..ec4a626 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -243,6 +243,11 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
   }
 
   map_file.close();
+  sim_file.close();
+  if (sim_file.fail()) {
+    LOG(ERROR) << "can't write " << sim_file_address << endl;
+    return FAILURE;
+  }
   /*--- x ---*/
 
   delete[] wires;
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..8ebe4e5 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -522,6 +522,10 @@ int WriteMapping(const ReadCircuitString& read_circuit_string,
   f << "terminate " << read_circuit.terminate_id << endl;
 
   f.close();
+  if (f.fail()) {
+    LOG(ERROR) << "can't write " << out_mapping_filename << endl;
+    return FAILURE;
+  }
 
   return SUCCESS;
 }
-- 
2.43.0


From 13fd33483e4157d7fd6fe10083a538c0ce822624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 20/30] fix: constant outputs are not read from outside the
 wire arrays

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 24 +++++++++++++++-----
 garbled_circuit/garbled_circuit_low_mem.cpp  | 24 +++++++++++++++-----
 scd/scd_evaluator.cpp                        |  4 +++-
 scd/scheduling.cpp                           |  4 +++-
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 9778721..f3c8a6e 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -378,13 +378,19 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+      int64_t output_index = garbled_circuit.outputs[i];
+      if (output_index == CONST_ZERO || output_index == CONST_ONE) {
+        // constant outputs have no label
+        output_vals[cid * garbled_circuit.output_size + i] = (output_index == CONST_ONE) ? 1 : 0;
+        continue;
+      }
       output_labels[(cid * garbled_circuit.output_size + i) * 2 + 0] =
-          wires[garbled_circuit.outputs[i]].label0;
+          wires[output_index].label0;
       output_labels[(cid * garbled_circuit.output_size + i) * 2 + 1] =
-          wires[garbled_circuit.outputs[i]].label1;
+          wires[output_index].label1;
       output_vals[cid * garbled_circuit.output_size + i] =
-          wires_val[garbled_circuit.outputs[i]];
-      DUMP("output") << wires[garbled_circuit.outputs[i]].label0 << endl;
+          wires_val[output_index];
+      DUMP("output") << wires[output_index].label0 << endl;
     }
     garble_time += RDTSC - garble_start_time;
 
@@ -676,10 +682,16 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+      int64_t output_index = garbled_circuit.outputs[i];
+      if (output_index == CONST_ZERO || output_index == CONST_ONE) {
+        // constant outputs have no label
+        output_vals[cid * garbled_circuit.output_size + i] = (output_index == CONST_ONE) ? 1 : 0;
+        continue;
+      }
       output_labels[cid * garbled_circuit.output_size + i] =
-          wires[garbled_circuit.outputs[i]];
+          wires[output_index];
       output_vals[cid * garbled_circuit.output_size + i] =
-          wires_val[garbled_circuit.outputs[i]];
+          wires_val[output_index];
       DUMP("output") << output_labels[cid * garbled_circuit.output_size + i]
           << endl;
     }
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 4393b82..9c4f36c 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -546,9 +546,15 @@ uint64_t GarbleLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   }
 
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-    output_labels[(i) * 2 + 0] = wires[garbled_circuit.outputs[i]].label0;
-    output_labels[(i) * 2 + 1] = wires[garbled_circuit.outputs[i]].label1;
-    output_vals[i] = wires_val[garbled_circuit.outputs[i]];
+    int64_t output_index = garbled_circuit.outputs[i];
+    if (output_index == CONST_ZERO || output_index == CONST_ONE) {
+      // constant outputs have no label
+      output_vals[i] = (output_index == CONST_ONE) ? 1 : 0;
+      continue;
+    }
+    output_labels[(i) * 2 + 0] = wires[output_index].label0;
+    output_labels[(i) * 2 + 1] = wires[output_index].label1;
+    output_vals[i] = wires_val[output_index];
   }
   if (garbled_circuit.terminate_id > 0) {
     (*terminate_label) = wires[garbled_circuit.terminate_id];
@@ -741,9 +747,15 @@ uint64_t EvaluateLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   }
 
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-    output_labels[i] = wires[garbled_circuit.outputs[i]];
-    output_vals[i] = wires_val[garbled_circuit.outputs[i]];
-    DUMP("output") << wires[garbled_circuit.outputs[i]] << endl;
+    int64_t output_index = garbled_circuit.outputs[i];
+    if (output_index == CONST_ZERO || output_index == CONST_ONE) {
+      // constant outputs have no label
+      output_vals[i] = (output_index == CONST_ONE) ? 1 : 0;
+      continue;
+    }
+    output_labels[i] = wires[output_index];
+    output_vals[i] = wires_val[output_index];
+    DUMP("output") << wires[output_index] << endl;
   }
   if (garbled_circuit.terminate_id > 0) {
     (*terminate_label) = wires[garbled_circuit.terminate_id];
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ec4a626..4604aa8 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -188,7 +188,9 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-      if (wires[garbled_circuit.outputs[i]])
+      int64_t output_index = garbled_circuit.outputs[i];
+      if (output_index == CONST_ONE
+          || (output_index != CONST_ZERO && wires[output_index]))
         BN_set_bit(*outputs, cid * garbled_circuit.output_size + i);
       else
         BN_clear_bit(*outputs, cid * garbled_circuit.output_size + i);
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 8ebe4e5..faf42c9 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -488,7 +488,9 @@ int SortNetlist(ReadCircuit *read_circuit,
     }
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->output_size; i++) {
-    read_circuit->output_list[i] = sorted_list_1[read_circuit->output_list[i]];
+    if (read_circuit->output_list[i] > 0) {  // Constant values are negative
+      read_circuit->output_list[i] = sorted_list_1[read_circuit->output_list[i]];
+    }
   }
 
   if (read_circuit->terminate_id != 0) {
-- 
2.43.0


From c37a917afb2e9bda1b8f1d9bd093f3bc69b8c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:22 +0000
Subject: [PATCH 21/30] fix: output list keeps the sign of constant outputs

output_list was unsigned, so the codes -2/-3 of constant outputs passed the
'> 0' test of SortNetlist (out-of-bounds read) and were written to the scd
file as 2^64-2, which ReadSCD cannot read back.
---
 scd/v_2_scd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scd/v_2_scd.h b/scd/v_2_scd.h
index 2d4c946..4dd1504 100644
--- a/scd/v_2_scd.h
+++ b/scd/v_2_scd.h
@@ -72,7 +72,7 @@ class ReadGate {
 class ReadCircuit {
 
  public:
-  vector<uint64_t> output_list;
+  vector<int64_t> output_list;
   vector<ReadGate> gate_list;
   vector<ReadGate> dff_list;
   vector<uint64_t> task_schedule;
-- 
2.43.0


From 8252904dc91080f8ef898e1ca3e17ec75fb989c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:01 +0000
Subject: [PATCH 22/30] fix: zero the garbled-table buffers so that struct
 padding does not carry heap contents to the evaluator

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index f3c8a6e..73c0571 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -177,9 +177,9 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 9c4f36c..f6126de 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -86,9 +86,9 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 848cadf40613f6de32ae5c1a01db5aace74a89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:16 +0000
Subject: [PATCH 23/30] fix: double the label before hashing, otherwise the
 fixed-key hash cancels and a garbled row reveals the global offset

---
 garbled_circuit/garbled_circuit_util.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 6671de3..ad11d26 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -234,10 +234,10 @@ void GarbleGate(BlockPair input0_labels, short input0_value,
         block tweak1 = MakeBlock(cid, 2 * gid + 1);
 
         block keys[4];
-        keys[0] = XorBlock(A0, tweak0);
-        keys[1] = XorBlock(A1, tweak0);
-        keys[2] = XorBlock(B0, tweak1);
-        keys[3] = XorBlock(B1, tweak1);
+        keys[0] = XorBlock(DoubleBlock(A0), tweak0);
+        keys[1] = XorBlock(DoubleBlock(A1), tweak0);
+        keys[2] = XorBlock(DoubleBlock(B0), tweak1);
+        keys[3] = XorBlock(DoubleBlock(B1), tweak1);
 
         block mask[4];
         mask[0] = keys[0];
@@ -418,8 +418,8 @@ void EvalGate(block input0_labels, short input0_value, block input1_labels,
         }
 
         block keys[2];
-        keys[0] = XorBlock(A, tweak0);
-        keys[1] = XorBlock(B, tweak1);
+        keys[0] = XorBlock(DoubleBlock(A), tweak0);
+        keys[1] = XorBlock(DoubleBlock(B), tweak1);
 
         block mask[2];
         mask[0] = keys[0];
-- 
2.43.0


From 2cc192e788a897698ad3f1844eab1741935e5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 24/30] fix: do not write a malformed private input to the log

---
 util/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.cpp b/util/util.cpp
index c4c2f65..744fbee 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -197,7 +197,7 @@ string to_string_hex(uint64_t v, int pad /* = 0 */) {
 // unlike BN_hex2bn, the whole string has to be hexadecimal digits.
 int Hex2BN(const string& hex_str, BIGNUM** v) {
   if (BN_hex2bn(v, hex_str.c_str()) != (int) hex_str.length()) {
-    LOG(ERROR) << "not a hexadecimal number: " << hex_str << endl;
+    LOG(ERROR) << "not a hexadecimal number" << endl;
     return FAILURE;
   }
   return SUCCESS;
-- 
2.43.0


From 3c9c38824ac5dd4174ec2b4ce6392626b2b618c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:04 +0000
Subject: [PATCH 25/30] fix: renumber references to wire 0 when a netlist is
 sorted

---
 scd/scheduling.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index faf42c9..22605f8 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -459,11 +459,11 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
 
   for (int64_t i = 0; i < (int64_t) read_circuit->dff_size; i++) {
-    if (read_circuit->dff_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[0] = sorted_list_1[read_circuit->dff_list[i]
           .input[0]];
     }
-    if (read_circuit->dff_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[1] = sorted_list_1[read_circuit->dff_list[i]
           .input[1]];
     }
@@ -472,14 +472,14 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->gate_size; i++) {
     read_circuit->gate_list[i].output = sorted_list_1[init_input_dff_size + i];
-    if (read_circuit->gate_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[0] =
           sorted_list_1[read_circuit->gate_list[i].input[0]];
       CHECK_EXPR_MSG(
           read_circuit->gate_list[i].input[0] < read_circuit->gate_list[i].output,
           "input 0 is larger than gate id");
     }
-    if (read_circuit->gate_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[1] =
           sorted_list_1[read_circuit->gate_list[i].input[1]];
       CHECK_EXPR_MSG(
@@ -488,7 +488,7 @@ int SortNetlist(ReadCircuit *read_circuit,
     }
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->output_size; i++) {
-    if (read_circuit->output_list[i] > 0) {  // Constant values are negative
+    if (read_circuit->output_list[i] >= 0) {  // Constant values are negative
       read_circuit->output_list[i] = sorted_list_1[read_circuit->output_list[i]];
     }
   }
-- 
2.43.0


From 8119068834a89304a6ecf32c49d87dab62321e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:28 +0000
Subject: [PATCH 26/30] fix: release the message arrays of the basic oblivious
 transfer

---
 crypto/OT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index fae24f6..21fd1e3 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -99,7 +99,9 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
     for (uint32_t j = 0; j < 2; j++) {
       BN_free(x[i][j]);
     }
+    delete[] x[i];
   }
+  delete[] x;
   BN_CTX_free(ctx);
   return SUCCESS;
 }
@@ -180,13 +182,17 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
 
   BN_free(m0p);
   BN_free(m1p);
+  BN_free(mb);
 
   for (uint32_t i = 0; i < m_len; i++) {
     for (uint32_t j = 0; j < 2; j++) {
       BN_free(x[i][j]);
     }
+    delete[] x[i];
     BN_free(k[i]);
   }
+  delete[] x;
+  delete[] k;
   BN_CTX_free(ctx);
 
   return SUCCESS;
-- 
2.43.0


From b60de8547ee5b11a20104b09dbfa11722a3d8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:28 +0000
Subject: [PATCH 27/30] fix: do not leak numbers in the oblivious transfer
 extension

---
 crypto/OT_extension.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 94f38c6..19df515 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -81,6 +81,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   uint32_t md_len;
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
+  delete[] v_arr;
 
   BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
 
@@ -139,7 +140,6 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
   for (uint32_t i = 0; i < SEC_K_BIT; i++) {
     Q[i] = BN_new();
   }
-  BN_new();
 
   CHECK(OTRecvBN(S, SEC_K_BIT, connfd, Q));
 
@@ -211,7 +211,6 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
     CHECK(RecvBN(connfd, y1));
     CHECK(HashBN(h, m_bitlen, i, T[i][0]));
 
-    m[i] = BN_new();
     if (BN_is_bit_set(sel, i) == 0) {
       BN_CHECK(BN_xor(m[i], m_bitlen, y0, h));
 
-- 
2.43.0


From 256991337f37d1657270e551aac0e6f0cb073bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:28 +0000
Subject: [PATCH 28/30] fix: release the hexadecimal strings of the output

---
 util/util.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 744fbee..038c65d 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -208,14 +208,17 @@ int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                         string *output_str) {
   (*output_str) = "";
   if (output_mode == OutputMode::consecutive) {  // normal
-    const char* output_c = BN_bn2hex(outputs);
+    char* output_c = BN_bn2hex(outputs);
     (*output_str) = output_c;
+    OPENSSL_free(output_c);
   } else if (output_mode == OutputMode::separated_clock) {  // Separated by clock
     BIGNUM* temp = BN_new();
     for (uint64_t i = 0; i < clock_cycles; i++) {
       BN_rshift(temp, outputs, i * garbled_circuit.output_size);
       BN_mask_bits(temp, garbled_circuit.output_size);
-      (*output_str) += BN_bn2hex(temp);
+      char* output_c = BN_bn2hex(temp);
+      (*output_str) += output_c;
+      OPENSSL_free(output_c);
       if (i < clock_cycles - 1) {
         (*output_str) += "\n";
       }
@@ -225,7 +228,9 @@ int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
     BIGNUM* temp = BN_new();
     BN_rshift(temp, outputs, (clock_cycles - 1) * garbled_circuit.output_size);
     BN_mask_bits(temp, garbled_circuit.output_size);
-    (*output_str) += BN_bn2hex(temp);
+    char* output_c = BN_bn2hex(temp);
+    (*output_str) += output_c;
+    OPENSSL_free(output_c);
     BN_free(temp);
   }
   return SUCCESS;
@@ -236,21 +241,26 @@ int OutputBN2StrLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                        string* output_str) {
   (*output_str) = "";
   if (output_mode == OutputMode::consecutive) {  // normal
-    const char* output_c = BN_bn2hex(outputs);
+    char* output_c = BN_bn2hex(outputs);
     (*output_str) = output_c;
+    OPENSSL_free(output_c);
   } else if (output_mode == OutputMode::separated_clock) {  // Separated by clock
     BIGNUM* temp = BN_new();
     for (uint64_t i = 0; i < clock_cycles; i++) {
       BN_rshift(temp, outputs, i * garbled_circuit.output_size);
       BN_mask_bits(temp, garbled_circuit.output_size);
-      (*output_str) += BN_bn2hex(temp);
+      char* output_c = BN_bn2hex(temp);
+      (*output_str) += output_c;
+      OPENSSL_free(output_c);
       if (i < clock_cycles - 1) {
         (*output_str) += "\n";
       }
     }
     BN_free(temp);
   } else if (output_mode == OutputMode::last_clock) {  // only last clock
-    (*output_str) += BN_bn2hex(outputs);
+    char* output_c = BN_bn2hex(outputs);
+    (*output_str) += output_c;
+    OPENSSL_free(output_c);
   }
 
   return SUCCESS;
-- 
2.43.0


From 9944db8a1eb4a51e4649c3d6819b88721ccee5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:45 +0000
Subject: [PATCH 29/30] fix: release posix_memalign memory with free, next to
 its allocation

---
 garbled_circuit/garbled_circuit_util.cpp | 13 -------------
 scd/scd.cpp                              | 13 +++++++++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index ad11d26..b28dd60 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -54,19 +54,6 @@ uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
   return num_of_non_xor;
 }
 
-void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
-  delete[] garbled_circuit->garbledGates;
-  if (garbled_circuit->outputs != nullptr) {
-    delete[] garbled_circuit->outputs;
-  }
-  if (garbled_circuit->I != nullptr) {
-    delete[] garbled_circuit->I;
-  }
-  if (garbled_circuit->D != nullptr) {
-    delete[] garbled_circuit->D;
-  }
-}
-
 int ParseInitInputStr(const string& init_str, const string&input_str,
                       uint64_t init_size, uint64_t input_size,
                       uint64_t clock_cycles, BIGNUM** init, BIGNUM** input) {
diff --git a/scd/scd.cpp b/scd/scd.cpp
index c795c23..d2ef1ce 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -123,6 +123,19 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   return SUCCESS;
 }
 
+void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
+  free(garbled_circuit->garbledGates);  // from posix_memalign
+  if (garbled_circuit->outputs != nullptr) {
+    free(garbled_circuit->outputs);  // from posix_memalign
+  }
+  if (garbled_circuit->I != nullptr) {
+    delete[] garbled_circuit->I;
+  }
+  if (garbled_circuit->D != nullptr) {
+    delete[] garbled_circuit->D;
+  }
+}
+
 int WriteSCD(const ReadCircuit& read_circuit, const string &file_name) {
   std::ofstream f(file_name.c_str(), std::ios::out);
   if (!f.is_open()) {
-- 
2.43.0


From 5eca18e1f863d7dee1ba6faef7e1c4406e66473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:45 +0000
Subject: [PATCH 30/30] fix: release numbers and circuit after a plaintext
 evaluation

---
 scd/scd_evaluator.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 4604aa8..b9a724b 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -50,6 +50,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
   unsigned char* outputs_arr = new unsigned char[(*clock_cycles) * garbled_circuit.output_size];
   memset(outputs_arr, 0, (*clock_cycles) * garbled_circuit.output_size);
   BN_bin2bn(outputs_arr, (*clock_cycles) * garbled_circuit.output_size, *outputs);
+  delete[] outputs_arr;
 
 /*--- Store internal values in csv file ---*/
   string map_file_address(scd_file_address+".map");
@@ -278,11 +279,14 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   CHECK(Hex2BN(g_input_str, &g_input));
   CHECK(Hex2BN(e_input_str, &e_input));
 
-  LOG(INFO) << "p_init = " << BN_bn2hex(p_init) << "\tg_init = "
-            << BN_bn2hex(g_init) << "\te_init = " << BN_bn2hex(e_init)
-            << "\tp_input = " << BN_bn2hex(p_input) << "\tg_input = "
-            << BN_bn2hex(g_input) << "\te_input = " << BN_bn2hex(e_input)
-            << endl;
+  char* hex[6] = { BN_bn2hex(p_init), BN_bn2hex(g_init), BN_bn2hex(e_init),
+      BN_bn2hex(p_input), BN_bn2hex(g_input), BN_bn2hex(e_input) };
+  LOG(INFO) << "p_init = " << hex[0] << "\tg_init = " << hex[1]
+            << "\te_init = " << hex[2] << "\tp_input = " << hex[3]
+            << "\tg_input = " << hex[4] << "\te_input = " << hex[5] << endl;
+  for (char* h : hex) {
+    OPENSSL_free(h);
+  }
 
   GarbledCircuit garbled_circuit;
   if (ReadSCD(scd_file_address, &garbled_circuit) == FAILURE) {
@@ -307,6 +311,15 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   CHECK(
       OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
                           outputs_str));
+
+  BN_free(p_init);
+  BN_free(g_init);
+  BN_free(e_init);
+  BN_free(p_input);
+  BN_free(g_input);
+  BN_free(e_input);
+  BN_free(outputs);
+  RemoveGarbledCircuit(&garbled_circuit);
   return SUCCESS;
 }
 
-- 
2.43.0

