From 3349dcc9786a4e5675b7d58eafb8ffacdea726bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 01/25] fix: addition and subtraction of 1-bit integers

The most significant bit was processed a second time when it is also the
least significant one, so a + b gave a|b.
---
 fbpcf/frontend/Int_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..e07fc58 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +180,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From f42a7e5709be50dd2f39e06a91efecd42522619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:49 +0000
Subject: [PATCH 02/25] fix: size of joined batches under the deferred
 scheduler

---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From dd4da4be92d8543fbf778bcfcb6fb4ec19a28ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 03/25] fix: copy assignment of a Bit to itself

---
 fbpcf/frontend/Bit_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..574af9a 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // increase first: src may refer to the same wire (or be this very object)
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
-- 
2.43.0


From cecf93c292b5927c5b55e708bf05c4915ddcda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 04/25] fix: deferred and/multiplication of empty batches

---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 4 ++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6a5af23 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,10 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..7f7b8d7 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,10 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From fa253ca4a4813a63ff65b646d8b7144b925eebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 05/25] fix: wrap-around of unsigned and of 31- and 63-bit
 signed Intp values

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..c7f2f37 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return round(kOffSet - v_);
     }
   }
 
@@ -83,14 +83,18 @@ class Intp {
       width == 64 ? 0 : (ULLONG_MAX >> (64 - width)) + 1;
 
   inline static NativeType round(NativeType v) {
-    if (v > kMax) {
-      return v - kOffSet;
-    } else if constexpr (isSigned) {
-      if (v < kMin) {
-        return v + kOffSet;
+    if constexpr (isSigned) {
+      // wrap around in unsigned arithmetic: kOffSet may not be representable in
+      // NativeType (e.g. when width is 31 or 63).
+      if (v > kMax) {
+        return uint64_t(v) - uint64_t(kOffSet);
+      } else if (v < kMin) {
+        return uint64_t(v) + uint64_t(kOffSet);
       }
+      return v;
+    } else {
+      return v & kMax;
     }
-    return v;
   }
 
  private:
-- 
2.43.0


From fea60112be8f8c2106b211afa2fcec0997bfddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 06/25] fix: in-memory link re-delivered bytes of a message
 that was received in parts

---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..2f0c69f 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -64,9 +64,9 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      auto remaining = size - result.size();
+      result.insert(result.end(), buf.begin(), buf.begin() + remaining);
+      buf.erase(buf.begin(), buf.begin() + remaining);
     }
   }
   return result;
-- 
2.43.0


From e70ef1b95d8e8246eefa712bc9b9b7e8baa12d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 07/25] fix: results of batches that are all empty

executeScheduledOperations returned early with empty result vectors when
no tuple was needed, so retrieving the result of a scheduled batch of size
zero threw out_of_range.
---
 fbpcf/engine/SecretShareEngine.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.cpp b/fbpcf/engine/SecretShareEngine.cpp
index a1cdf77..0c57a65 100644
--- a/fbpcf/engine/SecretShareEngine.cpp
+++ b/fbpcf/engine/SecretShareEngine.cpp
@@ -526,13 +526,14 @@ SecretShareEngine::computeAllScheduledOperations(
 
     if (normalTupleCount == 0 && compositeTupleCount.empty() &&
         integerTupleCount == 0) {
+      // there may still be scheduled batches, but they are all empty
       return {
           std::vector<bool>(),
-          std::vector<std::vector<bool>>(),
+          std::vector<std::vector<bool>>(batchAnds.size()),
           std::vector<std::vector<bool>>(),
           std::vector<std::vector<std::vector<bool>>>(),
           std::vector<uint64_t>(),
-          std::vector<std::vector<uint64_t>>()};
+          std::vector<std::vector<uint64_t>>(batchMults.size())};
     }
 
     auto [normalTuples, compositeTuples] =
@@ -592,13 +593,19 @@ SecretShareEngine::computeAllScheduledOperations(
     }
 
     if (normalTupleCount == 0 && integerTupleCount == 0) {
+      // there may still be scheduled gates, but their results are all empty
+      std::vector<std::vector<std::vector<bool>>> compositeBatchANDResults;
+      for (auto& batchCompositeAnd : batchCompositeAnds) {
+        compositeBatchANDResults.emplace_back(
+            batchCompositeAnd.getRights().size());
+      }
       return {
           std::vector<bool>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<std::vector<bool>>>(),
+          std::vector<std::vector<bool>>(batchAnds.size()),
+          std::vector<std::vector<bool>>(compositeAnds.size()),
+          std::move(compositeBatchANDResults),
           std::vector<uint64_t>(),
-          std::vector<std::vector<uint64_t>>()};
+          std::vector<std::vector<uint64_t>>(batchMults.size())};
     }
 
     auto tuples = tupleGenerator_->getBooleanTuple(normalTupleCount);
-- 
2.43.0


From 271f191a090c95c1ad7b5224132c47c108b439c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 08/25] fix: hashing no blocks

Aes::inPlaceHash asserted on an empty vector, so that a bidirectional
transfer of no message, or a request for no composite tuple (a batch of
size zero), aborted the process.
---
 fbpcf/engine/util/aes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fbpcf/engine/util/aes.cpp b/fbpcf/engine/util/aes.cpp
index 68f622c..0325b52 100644
--- a/fbpcf/engine/util/aes.cpp
+++ b/fbpcf/engine/util/aes.cpp
@@ -88,7 +88,6 @@ void Aes::encryptInPlace(std::vector<__m128i>& plaintext) const {
 }
 
 void Aes::inPlaceHash(std::vector<__m128i>& src) const {
-  assert(!std::empty(src));
   auto tmp = src;
   encryptInPlace(src);
   for (size_t i = 0; i < src.size(); i++) {
-- 
2.43.0


From f15e851cef9164ade2d747ece5389e14c9f28aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 09/25] fix: LinearOram wrote to a wrong cell when an index out
 of range had bits above the memory's width

---
 fbpcf/mpc_std_lib/oram/LinearOram_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/mpc_std_lib/oram/LinearOram_impl.h b/fbpcf/mpc_std_lib/oram/LinearOram_impl.h
index 2563883..2b62237 100644
--- a/fbpcf/mpc_std_lib/oram/LinearOram_impl.h
+++ b/fbpcf/mpc_std_lib/oram/LinearOram_impl.h
@@ -117,6 +117,12 @@ LinearOram<T, schedulerId>::generateInputValue(
   std::vector<typename LinearOram<T, schedulerId>::SecBatchT> rst;
   rst.push_back(std::move(src));
   uint32_t bitWidth = std::ceil(log2(range));
+  // an index with any of the higher bits set is out of range
+  for (size_t i = bitWidth; i < conditions.size(); i++) {
+    rst[0] = util::MpcAdapters<T, schedulerId>::obliviousSwap(
+                 rst.at(0), zero, conditions.at(i))
+                 .first;
+  }
   for (int i = bitWidth - 1; i >= 0; i--) {
     rst = conditionalExpansionOneLayer(std::move(rst), zero, conditions.at(i));
     // find the smallest number that is no smaller than  ceil(range / 2^i)
-- 
2.43.0


From 2b29fcd91e298b62fd04acf94be180e7b4f98a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 10/25] fix: ShuffleBasedCompactor threw when no item was
 labeled

---
 fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
index 596f58c..b52a6cc 100644
--- a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
+++ b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
@@ -89,6 +89,18 @@ class ShuffleBasedCompactor final
       }
     }
 
+    if (compactifiedLabel.empty()) {
+      // nothing was labeled: return empty batches
+      auto emptySplit = std::make_shared<std::vector<uint32_t>>(
+          std::initializer_list<uint32_t>{0, size});
+      return {
+          util::MpcAdapters<T, schedulerId>::unbatching(shuffledSrc, emptySplit)
+              .at(0),
+          util::MpcAdapters<LabelT, schedulerId>::unbatching(
+              shuffledLabel, emptySplit)
+              .at(0)};
+    }
+
     // rebatch
     auto rstLabel = util::MpcAdapters<LabelT, schedulerId>::batchingWith(
         compactifiedLabel.at(0),
-- 
2.43.0


From 426b2d89c81e7125172bee9091d3bee54c0fea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 11/25] fix: permuters failed on an empty batch

---
 .../permuter/AsWaksmanPermuterForBitString_impl.h           | 6 ++++--
 fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h         | 4 ++--
 fbpcf/mpc_std_lib/permuter/DummyPermuter.h                  | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h
index c4878f9..9f79710 100644
--- a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h
+++ b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h
@@ -115,8 +115,10 @@ AsWaksmanPermuter<std::vector<bool>, schedulerId>::permute_impl(
   if (order.size() > 2) {
     rst.reserve(2 * (std::ceil(log2(order.size()))) - 1);
   }
-  computeChoiceVectors(
-      std::vector<std::vector<uint32_t>>(1, order), rst, order.size());
+  if (order.size() > 1) {
+    computeChoiceVectors(
+        std::vector<std::vector<uint32_t>>(1, order), rst, order.size());
+  }
 
   permute_impl(vectorOfVectors, std::vector<size_t>(1, length), length, rst);
   return frontend::BitString<true, schedulerId, true>(
diff --git a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h
index c58363d..ed17b42 100644
--- a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h
+++ b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h
@@ -18,7 +18,7 @@ typename AsWaksmanPermuter<T, schedulerId>::SecBatchType
 AsWaksmanPermuter<T, schedulerId>::permute_impl(
     const SecBatchType& src,
     size_t size) const {
-  if (size == 1) {
+  if (size <= 1) {
     return src;
   }
   if (size == 2) {
@@ -53,7 +53,7 @@ AsWaksmanPermuter<T, schedulerId>::permute_impl(
     const SecBatchType& src,
     size_t size,
     const std::vector<uint32_t>& order) const {
-  if (size == 1) {
+  if (size <= 1) {
     return src;
   }
   if (size == 2) {
diff --git a/fbpcf/mpc_std_lib/permuter/DummyPermuter.h b/fbpcf/mpc_std_lib/permuter/DummyPermuter.h
index f999200..70782cc 100644
--- a/fbpcf/mpc_std_lib/permuter/DummyPermuter.h
+++ b/fbpcf/mpc_std_lib/permuter/DummyPermuter.h
@@ -26,6 +26,9 @@ class DummyPermuter final
 
   SecBatchType permute_impl(const SecBatchType& src, size_t size)
       const override {
+    if (size == 0) {
+      return src;
+    }
     std::vector<SecBatchType> unbatched =
         util::MpcAdapters<T, schedulerId>::unbatching(
             src, std::make_shared<std::vector<uint32_t>>(size, 1));
@@ -50,6 +53,9 @@ class DummyPermuter final
       const SecBatchType& src,
       size_t size,
       const std::vector<uint32_t>& order) const override {
+    if (size == 0) {
+      return src;
+    }
     std::vector<SecBatchType> unbatched =
         util::MpcAdapters<T, schedulerId>::unbatching(
             src, std::make_shared<std::vector<uint32_t>>(size, 1));
-- 
2.43.0


From 19bef6435008ce375cb11efd0418422d5f0238be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 12/25] fix: S2V of a text of a block or more doubled the mask,
 so it collided with padded texts

---
 fbpcf/primitive/mac/S2v.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/fbpcf/primitive/mac/S2v.cpp b/fbpcf/primitive/mac/S2v.cpp
index 8d687b6..e697393 100644
--- a/fbpcf/primitive/mac/S2v.cpp
+++ b/fbpcf/primitive/mac/S2v.cpp
@@ -21,22 +21,21 @@ std::vector<unsigned char> S2v::getMac128(
 
   __m128i initalMac = mac_->getMacM128i(initialBlock);
 
-  // dbl
-  bool msb = engine::util::getMsb(initalMac);
-  engine::util::lShiftByBitsInPlace(initalMac, 1);
-  if (msb) {
-    initalMac = _mm_xor_si128(initalMac, rb);
-  }
-  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
-
-  // pad
+  // dbl and pad, only for a text that is shorter than a block
   if (textCopy.size() < 16) {
+    bool msb = engine::util::getMsb(initalMac);
+    engine::util::lShiftByBitsInPlace(initalMac, 1);
+    if (msb) {
+      initalMac = _mm_xor_si128(initalMac, rb);
+    }
     textCopy.push_back(0x80);
     while (textCopy.size() < 16) {
       textCopy.push_back(0x00);
     }
   }
 
+  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
+
   // xor or xorend
   for (size_t i = 0; i < 16; ++i) {
     textCopy.at(textCopy.size() - 1 - i) ^= initialBlock.at(15 - i);
-- 
2.43.0


From 0b3a234b5bf786e34dae2aadafdb022fcad09007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 13/25] fix: walr multiplication read past the end of shorter
 feature columns

---
 .../OTBasedMatrixMultiplication_impl.h                   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
index efa1987..da11382 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
@@ -35,7 +35,16 @@ std::vector<double> OTBasedMatrixMultiplication<schedulerId, FixedPointType>::
         "the number of labels.");
   }
 
+  if (features.empty()) {
+    throw std::invalid_argument("There has to be at least one column.");
+  }
+
   size_t nFeatures = features[0].size();
+  for (const auto& column : features) {
+    if (column.size() != nFeatures) {
+      throw std::invalid_argument("All the columns must have the same length.");
+    }
+  }
   if (nFeatures > std::numeric_limits<uint32_t>::max()) {
     throw std::runtime_error(
         "Due to the PRG implementation "
-- 
2.43.0


From 76ed8025727769ce1da6e4c8a206753e46411764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 14/25] fix: UdpEncryption confused row indexes that agree in
 32 bits, and rows asked for in an earlier go

---
 .../unified_data_process/data_processor/UdpEncryption.cpp       | 1 +
 .../unified_data_process/data_processor/UdpEncryption.h         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index 1e8ed73..f464404 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -62,6 +62,7 @@ void UdpEncryption::prepareToProcessPeerData(
   }
   statusOfProcessingPeerData_ = Status::inProgress;
 
+  indexToOrderMap_.clear();
   for (size_t i = 0; i < indexes.size(); i++) {
     indexToOrderMap_.emplace(indexes.at(i), i);
   }
diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index d6bb054..f76d6fd 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -84,7 +84,7 @@ class UdpEncryption final : public IUdpEncryption {
   // this map records the index-to-order map, the i-th row in peer's input
   // should be indexToOrderMap_.at(i)-th in the encryption result, if i is in
   // this map.
-  std::map<int32_t, int32_t> indexToOrderMap_;
+  std::map<uint64_t, size_t> indexToOrderMap_;
 
   // the vector of cherry-picked data of matched user, the three vectors
   // consists of ciphertext, nonce, and index, respectively. We need to save the
-- 
2.43.0


From d6e55897de516e6a77b2e65b9661930614cf1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 15/25] fix: UdpEncryption checked the width of the first row
 only; longer later rows were cut off

---
 .../data_processor/UdpEncryption.cpp                   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index f464404..99e7015 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -38,10 +38,12 @@ void UdpEncryption::processMyData(
   if (plaintextData.size() == 0) {
     throw std::invalid_argument("can't use empty inputs");
   }
-  if (plaintextData.at(0).size() != myDataWidth_) {
-    throw std::invalid_argument(
-        "Inconsistent data width, expecting " + std::to_string(myDataWidth_) +
-        " but get " + std::to_string(plaintextData.at(0).size()));
+  for (const auto& row : plaintextData) {
+    if (row.size() != myDataWidth_) {
+      throw std::invalid_argument(
+          "Inconsistent data width, expecting " + std::to_string(myDataWidth_) +
+          " but get " + std::to_string(row.size()));
+    }
   }
 
   auto [ciphertext, nonce] =
-- 
2.43.0


From 3060447a2c3f2d04232eed024d6edfdf0fcd91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 16/25] fix: UdpUtil::localEncryption ignored its index offset

---
 .../mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index f40eac5..5b91b09 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -35,7 +35,7 @@ UdpUtil::localEncryption(
     __m128i prgKey,
     uint64_t indexOffset) {
   std::vector<uint64_t> indexes(plaintextData.size());
-  std::iota(indexes.begin(), indexes.end(), 0);
+  std::iota(indexes.begin(), indexes.end(), indexOffset);
   return localEncryption(plaintextData, prgKey, indexes);
 }
 
-- 
2.43.0


From 672e34046fdb285fb00942a10c8c04ec552c9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 17/25] fix: packed flag columns read past their end when rows
 or flags are missing

---
 .../serialization/PackedBitFieldColumn.h        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h b/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
index be82105..b51fa67 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
@@ -60,7 +60,24 @@ class PackedBitFieldColumn : public IColumnDefinition<schedulerId> {
         std::get<std::reference_wrapper<std::vector<NativeType>>>(inputData)
             .get();
 
+    if (bitPack.size() != writeBuffers.size()) {
+      std::string err = folly::sformat(
+          "Invalid number of values for column {}. Got {} values but number of rows should be {} ",
+          columnName_,
+          bitPack.size(),
+          writeBuffers.size());
+      throw std::runtime_error(err);
+    }
+
     for (size_t i = 0; i < writeBuffers.size(); i++) {
+      if (bitPack[i].size() != subColumnNames_.size()) {
+        std::string err = folly::sformat(
+            "Invalid number of bits at index {}. Got {} values but number of bits should be {}",
+            i,
+            bitPack[i].size(),
+            subColumnNames_.size());
+        throw std::runtime_error(err);
+      }
       unsigned char toWrite = 0;
       for (size_t j = 0; j < bitPack[i].size(); j++) {
         toWrite |= (bitPack[i][j] << j);
-- 
2.43.0


From 5e438cb22f649885e42e278de69d18247d0b7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 18/25] fix: LocalFileManager returns all bytes of a range,
 takes names without a directory and reports a failed write

---
 fbpcf/io/LocalFileManager.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index f37e5c9..ad22c51 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -42,13 +42,19 @@ void LocalFileManager::write(
     const std::string& fileName,
     const std::string& data) {
   std::filesystem::path filePath{fileName};
-  std::filesystem::create_directories(filePath.parent_path());
+  if (filePath.has_parent_path()) {
+    std::filesystem::create_directories(filePath.parent_path());
+  }
   std::ofstream os{fileName};
   if (!os.is_open()) {
     throw PcfException{folly::sformat("Failed to open file {}", fileName)};
   }
 
   os << data;
+  os.close();
+  if (os.fail()) {
+    throw PcfException{folly::sformat("Failed to write file {}", fileName)};
+  }
 }
 
 void LocalFileManager::copy(
@@ -81,19 +87,16 @@ std::string LocalFileManager::readBytes(
   auto validatedEnd = std::min(length, end);
   size_t bufferLength = validatedEnd - start;
 
-  char buffer[bufferLength + 1];
+  std::string buffer(bufferLength, '\0');
 
   // read data as a block:
-  if (is.readsome(buffer, bufferLength) != bufferLength) {
+  if (is.readsome(buffer.data(), bufferLength) != bufferLength) {
     throw PcfException{
         folly::sformat(
             "Hit exception when trying to read bytes from {}", fileName),
     };
   }
 
-  buffer[bufferLength] = '\0';
-
-  std::string s{buffer};
-  return s;
+  return buffer;
 }
 } // namespace fbpcf
-- 
2.43.0


From 9ac4beb8a8cfadbb5f2590b8325442d7141ff8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 19/25] fix: bucket names with dots are kept whole, an empty
 bucket is refused (GCS)

---
 fbpcf/gcp/GCSUtil.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index ee67b21..3f7ea23 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -40,7 +40,8 @@ GCSObjectReference uriToObjectReference(std::string url) {
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
   } else if (host.find(".storage.googleapis.com") != std::string::npos) {
-    bucket = host.substr(0, host.find_first_of("."));
+    // the bucket name itself may contain dots
+    bucket = host.substr(0, host.rfind(".storage.googleapis.com"));
   } else {
     // Remove the first character '/' in path
     path = path.substr(1);
@@ -54,6 +55,13 @@ GCSObjectReference uriToObjectReference(std::string url) {
     bucket = path.substr(0, pos);
   }
 
+  if (bucket.empty()) {
+    throw GcpException{folly::sformat(
+        "Incorrect GCS URI format: {}"
+        "bucket not specified",
+        url)};
+  }
+
   // path.substr(pos+1) to remove the first character '/'
   return GCSObjectReference{bucket, path.substr(pos + 1)};
 }
-- 
2.43.0


From bd92cded00b2b137d8d0887666acef3aaf6df4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 20/25] fix: an s3 address without a bucket is refused

---
 fbpcf/aws/S3Util.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fbpcf/aws/S3Util.cpp b/fbpcf/aws/S3Util.cpp
index 4f3c5ec..07d06eb 100644
--- a/fbpcf/aws/S3Util.cpp
+++ b/fbpcf/aws/S3Util.cpp
@@ -76,6 +76,13 @@ S3ObjectReference uriToObjectReference(std::string url) {
         url)};
   }
 
+  if (bucket.empty()) {
+    throw AwsException{folly::sformat(
+        "Incorrect S3 URI format: {}"
+        "bucket not specified",
+        url)};
+  }
+
   // path.substr(1) to remove the first character '/'
   return S3ObjectReference{region, bucket, path.substr(1)};
 }
-- 
2.43.0


From 23de21ddc9224e088fd7e09ea7be8dcb4ab27d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 21/25] fix: s3:// and gs:// names are cloud files

---
 fbpcf/io/FileManagerUtil.cpp | 5 ++++-
 fbpcf/io/api/IOUtils.h       | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/FileManagerUtil.cpp b/fbpcf/io/FileManagerUtil.cpp
index 230ba2a..69dc882 100644
--- a/fbpcf/io/FileManagerUtil.cpp
+++ b/fbpcf/io/FileManagerUtil.cpp
@@ -29,7 +29,10 @@ void write(const std::string& fileName, const std::string& data) {
 
 FileType getFileType(const std::string& fileName) {
   // S3 file format: https://bucket-name.s3.Region.amazonaws.com/key-name
-  return fileName.find("https://", 0) == 0 ? FileType::S3 : FileType::Local;
+  //                 s3://bucket-name/key-name
+  return fileName.find("https://", 0) == 0 || fileName.find("s3://", 0) == 0
+      ? FileType::S3
+      : FileType::Local;
 }
 
 std::unique_ptr<fbpcf::IFileManager> getFileManager(
diff --git a/fbpcf/io/api/IOUtils.h b/fbpcf/io/api/IOUtils.h
index 2914667..bb32769 100644
--- a/fbpcf/io/api/IOUtils.h
+++ b/fbpcf/io/api/IOUtils.h
@@ -35,7 +35,8 @@ constexpr size_t kLocalBufferedWriterChunkSize = 4096;
 class IOUtils {
  public:
   static bool isCloudFile(std::string filePath) {
-    return filePath.find("https://", 0) == 0;
+    return filePath.find("https://", 0) == 0 ||
+        filePath.find("s3://", 0) == 0 || filePath.find("gs://", 0) == 0;
   }
 
   static const std::vector<std::string> splitByComma(std::string& str) {
-- 
2.43.0


From 7f693f850b7e0907e819c1d4c5244302e4c8fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 22/25] fix: an S3 upload with a failed part is not completed

---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 5 +++++
 fbpcf/io/cloud_util/S3FileUploader.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 0a06185..f9dd202 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -78,11 +78,16 @@ int S3FileUploader::upload(std::vector<char>& buf) {
     return str.size();
   } else {
     XLOG(INFO) << "Upload part " << partNumber_ << " failed. Aborting...";
+    failed_ = true;
     abortUpload();
     return 0;
   }
 }
 int S3FileUploader::complete() {
+  if (failed_) {
+    XLOG(ERR) << "File " << filePath_ << " failed to upload.";
+    return -1;
+  }
   Aws::S3::Model::CompleteMultipartUploadRequest request;
   request.SetBucket(bucket_);
   request.SetKey(key_);
diff --git a/fbpcf/io/cloud_util/S3FileUploader.h b/fbpcf/io/cloud_util/S3FileUploader.h
index dbfadea..4eb184a 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.h
+++ b/fbpcf/io/cloud_util/S3FileUploader.h
@@ -34,6 +34,8 @@ class S3FileUploader : public IFileUploader {
   std::string key_;
   std::string uploadId_;
   std::size_t partNumber_ = 1;
+  // whether a part could not be uploaded, so the object would be incomplete
+  bool failed_ = false;
   Aws::Vector<Aws::S3::Model::CompletedPart> completedParts_;
 };
 
-- 
2.43.0


From a7ba4f50ed6ee74a7d3f13308394e961ab36f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 23/25] fix: empty and inverted ranges of S3 objects

---
 fbpcf/io/S3FileManager.cpp           | 9 +++++++++
 fbpcf/io/cloud_util/S3FileReader.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index a3899c6..08bb732 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -42,6 +42,15 @@ std::string S3FileManager::readBytes(
     const std::string& fileName,
     std::size_t start,
     std::size_t end) {
+  if (start > end) {
+    throw AwsException{
+        "Start byte " + std::to_string(start) + " is larger than the end " +
+        std::to_string(end)};
+  }
+  if (start == end) {
+    // An empty range can't be expressed: S3 would return the whole object.
+    return "";
+  }
   const auto& ref = fbpcf::aws::uriToObjectReference(fileName);
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
diff --git a/fbpcf/io/cloud_util/S3FileReader.cpp b/fbpcf/io/cloud_util/S3FileReader.cpp
index e6f5ec1..7a72b34 100644
--- a/fbpcf/io/cloud_util/S3FileReader.cpp
+++ b/fbpcf/io/cloud_util/S3FileReader.cpp
@@ -18,6 +18,15 @@ std::string S3FileReader::readBytes(
     const std::string& filePath,
     std::size_t start,
     std::size_t end) {
+  if (start > end) {
+    throw AwsException{
+        "Start byte " + std::to_string(start) + " is larger than the end " +
+        std::to_string(end)};
+  }
+  if (start == end) {
+    // An empty range can't be expressed: S3 would return the whole object.
+    return "";
+  }
   const auto& ref = fbpcf::aws::uriToObjectReference(filePath);
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
-- 
2.43.0


From d53cbb63d1db11224c6257d4fa7e4dad9e7ad096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 24/25] fix: writeFile and transferFileInParts report a failure
 to close the file

---
 fbpcf/io/api/FileIOWrappers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 346b732..e5e8725 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -38,7 +38,9 @@ void FileIOWrappers::writeFile(
   auto bufferedWriter =
       std::make_unique<fbpcf::io::BufferedWriter>(std::move(fileWriter));
   bufferedWriter->writeString(content);
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 void FileIOWrappers::transferFileInParts(
@@ -60,7 +62,9 @@ void FileIOWrappers::transferFileInParts(
   }
 
   bufferedReader->close();
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 bool FileIOWrappers::readCsv(
-- 
2.43.0


From 4573454edae08a22adcad3c6ef4e3a461fca52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 25/25] fix: CloudFileUtil.h lacks an include guard

---
 fbpcf/io/cloud_util/CloudFileUtil.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbpcf/io/cloud_util/CloudFileUtil.h b/fbpcf/io/cloud_util/CloudFileUtil.h
index 83cd846..b1b2ab3 100644
--- a/fbpcf/io/cloud_util/CloudFileUtil.h
+++ b/fbpcf/io/cloud_util/CloudFileUtil.h
@@ -5,6 +5,8 @@
  * LICENSE file in the root directory of this source tree.
  */
 
+#pragma once
+
 #include <memory>
 #include <string>
 #include "fbpcf/io/cloud_util/IFileReader.h"
-- 
2.43.0

