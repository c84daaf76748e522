From c11e69f9b2f7c3ed114ffe752af5d2238ab212bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 01/59] fix: keep all pending data receives that share a tag

pending_recvs_ was keyed by tag alone, but tags are allocated per sender: when
two ranks sent a separately-transferred payload with the same tag to one
receiver, and both were pending at the same time, the second receive was
dropped, so its message was never delivered and termination never detected.
---
 src/vt/messaging/active.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 544dbb0..ae4f4a9 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -74,6 +74,7 @@
 #include <type_traits>
 #include <tuple>
 #include <vector>
+#include <map>
 #include <unordered_map>
 #include <limits>
 #include <stack>
@@ -326,7 +327,7 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
   using EventRecordType      = event::AsyncEvent::EventRecordType;
   using SendFnType           = std::function<SendInfo(PtrLenPairType,NodeType,TagType)>;
   using UserSendFnType       = std::function<void(SendFnType)>;
-  using ContainerPendingType = std::unordered_map<TagType,PendingRecvType>;
+  using ContainerPendingType = std::multimap<TagType,PendingRecvType>;
   using ReadyHanTagType      = std::tuple<HandlerType, TagType>;
   using HandlerManagerType   = HandlerManager;
   using PendingSendType      = PendingSend;
-- 
2.43.0


From 961f1e70d199f799357a3c6864fc97069e9a3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 02/59] fix: receive put payloads that were split into several
 sends

A put payload larger than vt_max_mpi_send_size leaves the sender in several
chunks, but the receiver posted a single receive for the first chunk, so the
handler saw a truncated payload.
---
 src/vt/messaging/active.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 8ed080b..ccda66b 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1105,13 +1105,22 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
       envelopeSetPutPtrOnly(msg->env, put_ptr);
       put_finished = true;
     } else {
-      /*bool const put_delivered = */recvDataMsg(
-        1, put_tag, sender,
-        [=](PtrLenPairType ptr, ActionType deleter){
-          envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
-          processActiveMsg(base, sender, true, deleter);
-        }
-     );
+      auto const next = [=](PtrLenPairType ptr, ActionType deleter){
+        envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
+        processActiveMsg(base, sender, true, deleter);
+      };
+
+      std::size_t const put_size = envelopeGetPutSize(msg->env);
+      auto const max_per_send = theConfig()->vt_max_mpi_send_size;
+      if (put_size > max_per_send) {
+        // The sender has split the payload into several sends
+        auto const nchunks = (put_size + max_per_send - 1) / max_per_send;
+        recvDataDirect(
+          static_cast<int>(nchunks), put_tag, sender, put_size, next
+        );
+      } else {
+        /*bool const put_delivered = */recvDataMsg(1, put_tag, sender, next);
+      }
     }
   }
 
-- 
2.43.0


From f39239da032ef6bae37655ff19ea707d6f23abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 03/59] fix: let termination actions add actions for the same
 epoch

Running an action while iterating over the stored vector made an action that
registers a further action for its own (terminated) epoch invalidate the
iteration, and dropped the newly added action.
---
 src/vt/termination/term_action.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/vt/termination/term_action.cc b/src/vt/termination/term_action.cc
index ce90145..e1238ee 100644
--- a/src/vt/termination/term_action.cc
+++ b/src/vt/termination/term_action.cc
@@ -133,14 +133,17 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // Extract the actions before running them: an action might add further
+      // actions for the same epoch
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_actions_.erase(iter);
     }
   }
 
@@ -150,14 +153,17 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_callable_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // Extract the actions before running them: an action might add further
+      // actions for the same epoch
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_callable_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action->invoke();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_callable_actions_.erase(iter);
     }
   }
 }
-- 
2.43.0


From 800840355030047852318e4baeb86d33da79c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 04/59] fix: do not read past the last centroid when estimating
 counts

---
 src/vt/utils/adt/histogram_approx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..126a8ac 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -338,7 +338,7 @@ struct HistogramApprox {
     std::size_t k = it - cs_.begin();
 
     // \c std::lower_bound doesn't quite do what we need (when p == p_k)
-    if (cs_[k].getValue() == p) {
+    if (k < cs_.size() and cs_[k].getValue() == p) {
       k++;
     }
 
-- 
2.43.0


From dbbf6c87e2ec6700bc989559baad28ebae73120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 05/59] fix: keep the exact extremes when merging histograms

---
 src/vt/utils/adt/histogram_approx.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 126a8ac..4ed6d42 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -407,6 +407,12 @@ struct HistogramApprox {
       add(c.getValue(), c.getCount());
     }
 
+    // Merged centroids no longer hold the extremes of the input histogram
+    if (not in_cs.empty()) {
+      min_ = std::min(min_, in_hist.getMin());
+      max_ = std::max(max_, in_hist.getMax());
+    }
+
     // Pare the histogram down to the allowed size
     pareToNewMaxCentroids(cur_max_centroids);
   }
-- 
2.43.0


From e7fc237b37517cf77aa787aa55430af0a738124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 06/59] fix: skip epochs that are still active when allocating
 the next epoch

---
 src/vt/epoch/epoch_window.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..5ca1d31 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -110,9 +110,9 @@ EpochType EpochWindow::allocateNewEpoch() {
   // be allocated
   do {
     EpochType next = EpochType{*next_epoch_};
-    if (terminated_epochs_.contains(next)) {
-      (*next_epoch_)++;
+    (*next_epoch_)++;
 
+    if (terminated_epochs_.contains(next)) {
       // Tell the system the epoch is now active
       activateEpoch(next);
       return next;
-- 
2.43.0


From bd8358360b303bb8159f564d2d5c7ea9904720da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 07/59] fix: full-width fields in the bit packer

---
 src/vt/utils/bits/bits_packer.impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/bits/bits_packer.impl.h b/src/vt/utils/bits/bits_packer.impl.h
index 7329336..27c2d52 100644
--- a/src/vt/utils/bits/bits_packer.impl.h
+++ b/src/vt/utils/bits/bits_packer.impl.h
@@ -50,7 +50,8 @@
 
 namespace vt { namespace utils {
 
-#define gen_bit_mask(len) ((static_cast<uint64_t>(1) << (len)) - 1)
+#define gen_bit_mask(len)                                       \
+  ((len) < 64 ? (static_cast<uint64_t>(1) << (len)) - 1 : ~static_cast<uint64_t>(0))
 
 using FieldType = BitPacker::FieldType;
 
-- 
2.43.0


From aff1ce8b9d4839baf223ef739c4e8d1d332507b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 08/59] fix: strided group ranges with bounds off the stride

---
 src/vt/group/region/group_range.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..015f53a 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,8 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  // The upper bound is exclusive and need not be a multiple of the stride away
+  return hi_ > lo_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
@@ -76,7 +77,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
@@ -114,7 +115,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  auto const& span = static_cast<BoundType>(size / 2) * stride_;
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
-- 
2.43.0


From e6f82c20d7246219a367a7c760cf74017c57c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 09/59] fix: do not grow pool allocations into their oversize
 bytes

---
 src/vt/pool/pool.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..e5ebdf3 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -224,12 +224,14 @@ Pool::SizeType Pool::allocatedSize(std::byte* const buf) const {
 
 bool
 Pool::tryGrowAllocation(std::byte* buf, size_t grow_amount) {
-  // For non-pooled alloc, this condition will always be true
-  // since remainingSize(buf) would be 0
-  if ( remainingSize(buf) < grow_amount )
+  auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
+
+  // The oversize bytes are already part of the allocation, so the block must
+  // have room for them too. For non-pooled alloc, this condition will always be
+  // true since remainingSize(buf) is at most the oversize
+  if ( remainingSize(buf) < header->oversize + grow_amount )
     return false;
 
-  auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
   header->alloc_size += grow_amount;
   return true;
 }
-- 
2.43.0


From afbb0c504369ca8b88e508b7061a0ebe1f633a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 10/59] fix: count a node's own children among its descendants

---
 src/vt/collective/tree/tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/collective/tree/tree.cc b/src/vt/collective/tree/tree.cc
index 2f86909..eecccc8 100644
--- a/src/vt/collective/tree/tree.cc
+++ b/src/vt/collective/tree/tree.cc
@@ -106,7 +106,7 @@ std::size_t Tree::getNumDescendants(NodeType child) const {
 std::size_t Tree::getNumDescendants() const {
   auto total_size = 0;
   foreachChild([this,&total_size](NodeType child){
-    total_size += getNumDescendants(child);
+    total_size += getNumDescendants(child) + 1;
   });
   return total_size;
 }
-- 
2.43.0


From 19ded8ca1189ff65fe59f8331b9eb596af532a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 11/59] fix: keep the last byte of decompressed data when it
 starts a new chunk

---
 src/vt/utils/json/decompression_input_container.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vt/utils/json/decompression_input_container.cc b/src/vt/utils/json/decompression_input_container.cc
index 152c090..236a581 100644
--- a/src/vt/utils/json/decompression_input_container.cc
+++ b/src/vt/utils/json/decompression_input_container.cc
@@ -62,11 +62,8 @@ bool DecompressionInputContainer::advance() const {
   if (cur_ + 1 == len_) {
     len_ = d_->read(output_buf_.get(), chunk_size_);
     cur_ = 0;
-    if (cur_ + 1 < len_) {
-      return true;
-    } else {
-      return false;
-    }
+    // a chunk may hold a single byte
+    return len_ > 0;
   }
   if (cur_ + 1 < len_) {
     cur_++;
-- 
2.43.0


From 856de64fa0d483fc648c5cef946bbaafec7469a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 12/59] fix: keep later subphases when an element returns to an
 earlier one

---
 src/vt/elm/elm_lb_data.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..60fed5b 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -104,16 +104,24 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
+  // an element may return to an earlier subphase: never shrink
+  auto& subphase_comm = subphase_comm_[cur_phase_];
+  if (subphase_comm.size() <= cur_subphase_) {
+    subphase_comm.resize(cur_subphase_ + 1);
+  }
+  subphase_comm.at(cur_subphase_)[key].sendMsg(bytes);
 }
 
 void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
+  // an element may return to an earlier subphase: never shrink
+  auto& subphase_comm = subphase_comm_[cur_phase_];
+  if (subphase_comm.size() <= cur_subphase_) {
+    subphase_comm.resize(cur_subphase_ + 1);
+  }
+  subphase_comm.at(cur_subphase_)[key].receiveMsg(bytes);
 }
 
 void ElementLBData::recvObjData(
@@ -143,8 +151,12 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
+  // an element may return to an earlier subphase: never shrink
+  auto& subphase_timings = subphase_timings_[cur_phase_];
+  if (subphase_timings.size() <= cur_subphase_) {
+    subphase_timings.resize(cur_subphase_ + 1);
+  }
+  subphase_timings.at(cur_subphase_) += timeLoad;
 
   vt_debug_print(
     verbose,lb,
-- 
2.43.0


From ea41d158ad87a0147b2ce1933f5015f8b9aae144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 13/59] fix: read per-phase user-defined LB data under its
 phase

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index e6cba20..d736b94 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -621,8 +621,8 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
 
       if (phase.find("user_defined") != phase.end()) {
         auto userDefined = phase["user_defined"];
-        user_per_phase_json_[phase] = std::make_shared<nlohmann::json>();
-        *(user_per_phase_json_[phase]) = userDefined;
+        user_per_phase_json_[id] = std::make_shared<nlohmann::json>();
+        *(user_per_phase_json_[id]) = userDefined;
       }
     }
   }
-- 
2.43.0


From 2da40ccb5b880189edf19e237cb5709dd561b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 14/59] fix: trailing whitespace in an LB config line swallowed
 the next line

---
 src/vt/vrt/collection/balance/read_lb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index efbf17d..b9fb1c5 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -183,10 +183,10 @@ int eatWhitespace(std::ifstream& file) {
       std::string param;
       file >> param;
       params.push_back(param);
+      // stop at the end of the line even if it has trailing whitespace
+      eatWhitespace(file);
     }
 
-    eatWhitespace(file);
-
     while (file.peek() == '\n') {
       file.get();
     }
-- 
2.43.0


From fd9fe4b290a668ca9a196708b3ea70c833a9abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 15/59] fix: keep reduction stamps of user and system
 collective scopes apart

---
 src/vt/collective/collective_scope.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/collective/collective_scope.cc b/src/vt/collective/collective_scope.cc
index 16b6116..01f775b 100644
--- a/src/vt/collective/collective_scope.cc
+++ b/src/vt/collective/collective_scope.cc
@@ -92,7 +92,9 @@ TagType CollectiveScope::mpiCollectiveAsync(ActionType action) {
   using collective::reduce::makeStamp;
   using collective::reduce::TagPair;
 
-  auto stamp = makeStamp<TagPair>(scope_, tag);
+  // System and user scopes are numbered independently: the sign of the seq tag
+  // (always positive) keeps the stamps of equally numbered scopes distinct.
+  auto stamp = makeStamp<TagPair>(scope_, is_user_tag_ ? tag : -tag);
   r->reduce<collective::None>(collective_root, msg.get(), cb, stamp);
 
   return tag;
-- 
2.43.0


From 1dcb99ea58dc43078b82890a40d269263bfa3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 16/59] fix: no eager location update for the node the entity
 is on

---
 src/vt/topos/location/location.impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index c9b0b10..8557414 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -444,7 +444,8 @@ void EntityLocationCoord<EntityID>::sendEagerUpdate(
   );
 
   auto this_node = theContext()->getNode();
-  if (ask_node != this_node) {
+  // the entity may have moved to the asking node since it asked
+  if (ask_node != this_node and ask_node != deliver_node) {
     vtAssert(ask_node != uninitialized_destination, "Ask node must be valid");
     proxy_[ask_node].template send<&ThisType::handleEagerUpdate>(
       id, home_node, deliver_node
-- 
2.43.0


From f4b445bd1c554393e8b752497fb6bf218dba0c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 17/59] fix: ignore obsolete location answers for entities that
 were here since

---
 src/vt/topos/location/location.impl.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 8557414..daa5245 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -720,10 +720,18 @@ void EntityLocationCoord<EntityID>::updatePendingRequest(
     node
   );
 
+  auto lookups = pending_lookups_.extract(id);
+
+  if (not lookups and theContext()->getNode() != home_node) {
+    // This answer is obsolete: the entity arrived here after this node asked
+    // for its location and might have moved on since
+    return;
+  }
+
   recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, node});
 
   // trigger any pending actions upon registration
-  if (auto lookups = pending_lookups_.extract(id); lookups) {
+  if (lookups) {
     for (auto&& action : lookups.mapped()) {
       action(node);
     }
-- 
2.43.0


From a34999d0b0a814390d35a6abfeafa5847ab4a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 18/59] fix: average of negative integral diagnostic values

---
 src/vt/runtime/component/diagnostic_value.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 5d6ec4c..be4cb05 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -237,7 +237,8 @@ struct DiagnosticValueWrapper {
    */
   T getComputedValue() const {
     if (N_ > 0) {
-      return value_ / N_;
+      // the value might be negative: divide by a signed number
+      return value_ / static_cast<int64_t>(N_);
     } else {
       return value_;
     }
-- 
2.43.0


From ad57c418daca088a3dcedc2c90e7232db204d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 19/59] fix: merge diagnostic values that were never, or very
 often, updated

---
 src/vt/runtime/component/diagnostic_value.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index be4cb05..d671a8b 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -129,15 +129,17 @@ struct DiagnosticValueWrapper {
   friend DiagnosticValueWrapper<T> operator+(
     DiagnosticValueWrapper<T> d1, DiagnosticValueWrapper<T> const& d2
   ) {
-    int32_t N            = d1.N_ + d2.N_;
+    // cardinalities and their products might not fit into integers
+    double n             = static_cast<double>(d1.N_);
+    double n_c           = static_cast<double>(d2.N_);
+    double N             = n + n_c;
     double delta         = d2.avg_ - d1.avg_;
-    double delta_sur_N   = delta / static_cast<double>(N);
+    // neither operand might have been updated
+    double delta_sur_N   = N > 0. ? delta / N : 0.;
     double delta2_sur_N2 = delta_sur_N * delta_sur_N;
-    int32_t n2           = d1.N_ * d1.N_;
-    int32_t n_c2         = d2.N_ * d2.N_;
-    int32_t prod_n       = d1.N_ * d2.N_;
-    int32_t n_c          = d2.N_;
-    int32_t n            = d1.N_;
+    double n2            = n * n;
+    double n_c2          = n_c * n_c;
+    double prod_n        = n * n_c;
     double M2            = d1.M2_;
     double M2_c          = d2.M2_;
     double M3            = d1.M3_;
@@ -154,7 +156,7 @@ struct DiagnosticValueWrapper {
 
     d1.M2_  += d2.M2_ + prod_n * delta * delta_sur_N;
     d1.avg_ += n_c * delta_sur_N;
-    d1.N_    = N;
+    d1.N_   += d2.N_;
     d1.min_  = std::min(d1.min_, d2.min_);
     d1.max_  = std::max(d1.max_, d2.max_);
     d1.sum_ += d2.sum_;
-- 
2.43.0


From 455e0b99bb53a920da153fa9e0fbf3cc06c1c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 20/59] fix: moments of load statistics over many objects
 overflowed

---
 src/vt/vrt/collection/balance/stats_msg.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vt/vrt/collection/balance/stats_msg.h b/src/vt/vrt/collection/balance/stats_msg.h
index da5e777..a77270e 100644
--- a/src/vt/vrt/collection/balance/stats_msg.h
+++ b/src/vt/vrt/collection/balance/stats_msg.h
@@ -87,11 +87,12 @@ struct LoadData {
     auto delta     = a2.avg_ - a1.avg_;
     auto delta_sur_N   = delta / static_cast<double>(N);
     auto delta2_sur_N2 = delta_sur_N * delta_sur_N;
-    int32_t n2           = a1.N_ * a1.N_;
-    int32_t n_c2         = a2.N_ * a2.N_;
-    int32_t prod_n       = a1.N_ * a2.N_;
-    int32_t n_c          = a2.N_;
-    int32_t n            = a1.N_;
+    // products of cardinalities might not fit into integers
+    double n             = a1.N_;
+    double n_c           = a2.N_;
+    double n2            = n * n;
+    double n_c2          = n_c * n_c;
+    double prod_n        = n * n_c;
     auto M2            = a1.M2_;
     auto M2_c          = a2.M2_;
     auto M3            = a1.M3_;
-- 
2.43.0


From c9213c72a99820215e9dcec4397c98f80f1f6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 21/59] fix: destroying a page-sized stack unmapped the memory
 above it

---
 lib/context/src/context/context_stack.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/context/src/context/context_stack.cc b/lib/context/src/context/context_stack.cc
index fb39032..99f9621 100644
--- a/lib/context/src/context/context_stack.cc
+++ b/lib/context/src/context/context_stack.cc
@@ -174,7 +174,8 @@ void destroyStackInner(fcontext_stack_t stack, bool is_page_alloced) {
 #endif
 
     if (is_page_alloced) {
-      munmap(stack.sptr, stack.ssize);
+      // the stack pointer is at the end of the mapping
+      munmap(static_cast<char*>(stack.sptr) - stack.ssize, stack.ssize);
     } else {
       free(static_cast<char*>(stack.sptr) - stack.ssize);
     }
-- 
2.43.0


From 4ebf3de9eb6420841bb3a907a4ddc2aa1cbf74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 22/59] fix: start the rooted collection constructions that had
 to wait

---
 src/vt/vrt/collection/collection_builder.impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/collection_builder.impl.h b/src/vt/vrt/collection/collection_builder.impl.h
index 3b2a10d..bdacbc2 100644
--- a/src/vt/vrt/collection/collection_builder.impl.h
+++ b/src/vt/vrt/collection/collection_builder.impl.h
@@ -81,12 +81,12 @@ std::tuple<EpochType, VirtualProxyType> CollectionManager::makeCollection(
 }
 
 /*static*/ inline void CollectionManager::finishedRootedConstruction() {
+  // clear this first: the next construction sets it again when it starts
+  theCollection()->has_pending_construction_ = false;
   if (theCollection()->pending_rooted_constructions_.size() > 0) {
     auto action = theCollection()->pending_rooted_constructions_.back();
     theCollection()->pending_rooted_constructions_.pop_back();
     action();
-  } else {
-    theCollection()->has_pending_construction_ = false;
   }
 }
 
-- 
2.43.0


From 6459aca019ac950d89b033d3d87d2fe37045a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 23/59] fix: tell the home node of elements that were inserted
 away from it

---
 src/vt/vrt/collection/collection_builder.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/collection_builder.impl.h b/src/vt/vrt/collection/collection_builder.impl.h
index bdacbc2..d8c9a0f 100644
--- a/src/vt/vrt/collection/collection_builder.impl.h
+++ b/src/vt/vrt/collection/collection_builder.impl.h
@@ -212,7 +212,9 @@ void CollectionManager::makeCollectionImpl(param::ConstructParams<ColT>& po) {
   for (auto&& elm : po.list_insert_here_) {
     auto const idx = std::get<0>(elm);
     detail::ContainableElementFn<ColT> c{std::move(std::get<1>(elm))};
-    makeCollectionElement<ColT>(proxy, idx, this_node, std::move(c));
+    // the home node must be told if it is another node
+    auto const home_node = getElementMapping(map_han, map_object, idx, bounds);
+    makeCollectionElement<ColT>(proxy, idx, home_node, std::move(c));
   }
 
   if (not has_dynamic_membership) {
-- 
2.43.0


From 3ec03724d646f2e22c3fe56828b3a30dccaa09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 24/59] fix: let inserted elements join the reductions of their
 collection

---
 src/vt/vrt/collection/manager.impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index aead7c8..9d245b0 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1593,7 +1593,9 @@ void CollectionManager::finishModification(
   auto iter = reduce_stamp_.find(untyped_proxy);
   vtAssert(iter != reduce_stamp_.end(), "Must have value");
 
-  SeqType const global_min_stamp = iter->second;
+  // start from the first stamp if all elements are new
+  SeqType const global_min_stamp =
+    iter->second == std::numeric_limits<SeqType>::max() ? 1 : iter->second;
   reduce_stamp_.erase(iter);
 
   // set all new insertions to proper value
@@ -1710,7 +1712,9 @@ void CollectionManager::insert(
 
   if (insert_node == this_node and proceed_with_insertion) {
     auto cons_fn = detail::InsertMsgDispatcher<MsgT, ColT>::makeCons(insert_msg);
-    makeCollectionElement<ColT>(untyped_proxy, idx, mapped_node, cons_fn);
+    makeCollectionElement<ColT>(
+      untyped_proxy, idx, mapped_node, cons_fn, true
+    );
   } else if (insert_node != this_node) {
     auto msg = makeMessage<InsertMsg<ColT, MsgT>>(
       proxy, idx, insert_node, mapped_node, modify_epoch, insert_msg
-- 
2.43.0


From b39b9a04e9ec6fe7e80cbfa63fc9c14b1b0f3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 25/59] fix: forget the location of elements destroyed away
 from their home node

---
 src/vt/topos/location/location.h      | 12 +++++++++++-
 src/vt/topos/location/location.impl.h | 20 +++++++++++++++++++-
 src/vt/vrt/collection/manager.impl.h  |  9 +++++++--
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/vt/topos/location/location.h b/src/vt/topos/location/location.h
index e0a82a8..f20821e 100644
--- a/src/vt/topos/location/location.h
+++ b/src/vt/topos/location/location.h
@@ -152,8 +152,18 @@ struct EntityLocationCoord : LocationCoord {
    * \brief Unregister an entity
    *
    * \param[in] id the entity ID
+   * \param[in] home home node, told to forget the entity if it is another node
    */
-  void unregisterEntity(EntityID const& id);
+  void unregisterEntity(
+    EntityID const& id, NodeType const& home = uninitialized_destination
+  );
+
+  /**
+   * \internal \brief Forget an entity that was unregistered on another node
+   *
+   * \param[in] id the entity ID
+   */
+  void unregisterEntityRemote(EntityID const& id);
 
   /**
    * \brief Tell coordinator that the entity has migrated to another node
diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index daa5245..469672c 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -166,7 +166,9 @@ void EntityLocationCoord<EntityID>::registerEntityRemote(
 }
 
 template <typename EntityID>
-void EntityLocationCoord<EntityID>::unregisterEntity(EntityID const& id) {
+void EntityLocationCoord<EntityID>::unregisterEntity(
+  EntityID const& id, NodeType const& home
+) {
   auto reg_iter = local_registered_.find(id);
 
   vtAssert(
@@ -190,6 +192,22 @@ void EntityLocationCoord<EntityID>::unregisterEntity(EntityID const& id) {
   if (reg_msg_han_iter != local_registered_msg_han_.end()) {
     local_registered_msg_han_.erase(reg_msg_han_iter);
   }
+
+  if (
+    home != uninitialized_destination and home != theContext()->getNode()
+  ) {
+    proxy_[home].template send<&ThisType::unregisterEntityRemote>(
+      MsgProps().asLocationMsg(), id
+    );
+  }
+}
+
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::unregisterEntityRemote(EntityID const& id) {
+  bool const is_local = local_registered_.find(id) != local_registered_.end();
+  if (not is_local and recs_.exists(id)) {
+    recs_.remove(id);
+  }
 }
 
 template <typename EntityID>
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 9d245b0..37bbb5e 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1752,14 +1752,19 @@ void CollectionManager::destroyElm(
   if (elm_holder->exists(idx)) {
     // Delay this so we can finish processing this work unit first (which might
     // be this collection element running)
-    theSched()->enqueue([idx,untyped_proxy]{
+    auto const home_node = getMappedNode<ColT>(proxy, idx);
+    theTerm()->produce(modify_epoch);
+    theSched()->enqueue([idx,untyped_proxy,home_node,modify_epoch]{
+      theMsg()->pushEpoch(modify_epoch);
       auto elm = theCollection()->findElmHolder<IndexType>(untyped_proxy);
       if (elm->exists(idx)) {
         elm->remove(idx);
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
-          ->unregisterEntity(idx);
+          ->unregisterEntity(idx, home_node);
       }
+      theMsg()->popEpoch(modify_epoch);
+      theTerm()->consume(modify_epoch);
     });
   } else {
     // Otherwise, we send a destroy message that will be routed (eventually
-- 
2.43.0


From dfffcb34f470ca254640e78ea6df6af170eda23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 26/59] fix: a collective group could be built before its new
 root knew its role

When rank 0 is not a member, it makes another rank the root of the group's
tree, but did not wait for that rank to learn of it. Messages are not
ordered, so the new tree could reach the root first: it took rank 0 for its
parent, and the group's reductions were sent to a rank without the group.
---
 src/vt/group/collective/group_info_collective.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 4aa6b7d..1402aa0 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -337,6 +337,7 @@ void InfoColl::upTree() {
         group,new_root_cont_,true,subtree_zero,root_node,0,extra
       );
       theMsg()->sendMsg<newRootHan>(root_node, msg);
+      ++send_down_;
 
       for (std::size_t i = 1; i < msg_list.size(); i++) {
         vt_debug_print(
@@ -537,6 +538,11 @@ void InfoColl::newRoot(GroupCollectiveMsg* msg) {
   known_root_node_ = this_node;
   has_root_        = true;
   is_new_root_     = true;
+
+  // The group must not be finalized before the new root knows its role
+  auto const& from = theContext()->getFromNodeCurrentTask();
+  auto nmsg = makeMessage<GroupOnlyMsg>(getGroupID(), down_tree_fin_cont_);
+  theMsg()->sendMsg<downFinishedHan>(from, nmsg);
 }
 
 NodeType InfoColl::getRoot() const {
-- 
2.43.0


From 758e49e6c4c3d659b61a044da1b9f16a3c5bf81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 27/59] fix: a group operation discarded what was waiting for
 other groups

---
 src/vt/group/group_manager.impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/group/group_manager.impl.h b/src/vt/group/group_manager.impl.h
index c78e560..fa529e6 100644
--- a/src/vt/group/group_manager.impl.h
+++ b/src/vt/group/group_manager.impl.h
@@ -114,12 +114,14 @@ template <typename T>
   if (found) {
     auto iter = waiting_cont_.find(op);
     if (iter != waiting_cont_.end()) {
-      for (auto&& elm : iter->second) {
+      // Only remove what was waiting for this operation
+      auto const waiting = std::move(iter->second);
+      waiting_cont_.erase(iter);
+      for (auto&& elm : waiting) {
         for (auto&& action : action_iter->second) {
           action(elm);
         }
       }
-      waiting_cont_.clear();
     }
   }
 }
-- 
2.43.0


From cb95b2c60c6519c9ceda66a77b143fe19bb732a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 28/59] fix: an empty collective group was announced twice on
 the root

---
 src/vt/group/collective/group_info_collective.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 1402aa0..4d985f4 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -671,8 +671,9 @@ void InfoColl::newTree(NodeType const& parent) {
   theCollective()->makeReducerGroup(group_, collective_->span_.get());
   collective_->reduce_ = theCollective()->getReducerGroup(group_);
 
+  // Nodes outside the group have already run the action in finalize()
   auto const& action = getAction();
-  if (action) {
+  if (is_in_group and action) {
     action();
   }
   auto cur_actions = pending_ready_actions_;
-- 
2.43.0


From 1a186ac5051b31afab1fe0656091ddc6e9e660a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 29/59] fix: deliver once to each node of a rooted group that
 contains its creator

---
 src/vt/group/group_manager.cc            | 14 ++++----------
 src/vt/group/rooted/group_info_rooted.cc | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 647a056..6b7dc37 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -442,8 +442,6 @@ EventType GroupManager::sendGroup(
   auto const& msg = base.get();
   auto const& group = envelopeGetGroup(msg->env);
   auto const& dest = envelopeGetDest(msg->env);
-  auto const& this_node_dest = dest == this_node;
-  auto const& first_send = from == uninitialized_destination;
 
   vt_debug_print(
     terse, group,
@@ -496,7 +494,7 @@ EventType GroupManager::sendGroup(
         is_root
       );
 
-      if (remote_iter != remote_group_info_.end() && (!this_node_dest || first_send)) {
+      if (remote_iter != remote_group_info_.end()) {
         auto& info = *remote_iter->second;
         vtAssert(!info.is_forward_, "Must not be a forward");
         vtAssert(
@@ -523,13 +521,9 @@ EventType GroupManager::sendGroup(
           });
         }
 
-        if (is_root && from == uninitialized_destination) {
-          *deliver = true;
-        } else if (!is_root && dest == this_node) {
-          *deliver = false;
-        } else {
-          *deliver = true;
-        }
+        // Every node of the tree is in the group; the origin of the message
+        // has not delivered it before unless it is the root of the tree
+        *deliver = true;
       }
     }
   }
diff --git a/src/vt/group/rooted/group_info_rooted.cc b/src/vt/group/rooted/group_info_rooted.cc
index d3fa2ec..e91a125 100644
--- a/src/vt/group/rooted/group_info_rooted.cc
+++ b/src/vt/group/rooted/group_info_rooted.cc
@@ -55,6 +55,8 @@
 #include "vt/collective/tree/tree.h"
 #include "vt/group/group_manager.h"
 
+#include <algorithm>
+
 namespace vt { namespace group {
 
 InfoRooted::InfoRooted(
@@ -86,8 +88,10 @@ void InfoRooted::setupRooted() {
     auto const& this_node = theContext()->getNode();
 
     region_->sort();
-    if (region_->isList() || size < max_region_list_size) {
-      auto const& contains_this_node = region_->contains(this_node);
+    bool const contains_this_node = region_->contains(this_node);
+    if (
+      region_->isList() || size < max_region_list_size || contains_this_node
+    ) {
       region_list_ = region_->makeList();
       if (size < min_spanning_tree_size && contains_this_node) {
         this_node_included_ = true;
@@ -109,6 +113,16 @@ void InfoRooted::setupRooted() {
           normal, group,
           "Info::setupRooted: sending as list\n"
         );
+
+        // This node forwards every message for the group to the root of the
+        // group's tree: if it is in the group, it must be that root
+        if (contains_this_node) {
+          auto iter = std::find(
+            region_list_.begin(), region_list_.end(), this_node
+          );
+          std::rotate(region_list_.begin(), iter, iter + 1);
+        }
+
         auto const& low_node = region_list_[0];
         RemoteOperationIDType op = no_op_id;
         if (finished_setup_action_ != nullptr) {
-- 
2.43.0


From f5f8baf0970252161af24226448b7111d5f6ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 30/59] fix: a message that was only forwarded was never
 counted as received

---
 src/vt/messaging/active.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index ccda66b..42fec5b 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -926,6 +926,14 @@ void ActiveMessenger::processActiveMsg(
     if (cont != nullptr) {
       cont();
     }
+
+    // The message has been forwarded, but not run here: it has been received
+    if (not is_term) {
+      auto const epoch = envelopeIsEpochType(msg->env) ?
+        envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+      theTerm()->consume(epoch,1,from);
+      theTerm()->hangDetectRecv();
+    }
   }
 }
 
-- 
2.43.0


From 4667a19c3f6126235535d6d8fbee6e40e38f7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 31/59] fix: multicast to a new group of ranks used its
 arguments after they were gone

---
 src/vt/objgroup/proxy/proxy_objgroup.impl.h | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/vt/objgroup/proxy/proxy_objgroup.impl.h b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
index 337f9fc..b0ae2e8 100644
--- a/src/vt/objgroup/proxy/proxy_objgroup.impl.h
+++ b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
@@ -153,20 +153,21 @@ typename Proxy<ObjT>::PendingSendType Proxy<ObjT>::multicast(
   if (!groupID.has_value()) {
     return typename Proxy<ObjT>::PendingSendType{
       theTerm()->getCurrentEpoch(),
-      [&, this,
+      // The group may only be ready after this call (and its caller) returned:
+      // nothing the actions use can be held by reference
+      [proxy = *this, range,
+       region = std::shared_ptr<group::region::Region>(std::move(nodes)),
        args = std::make_tuple(std::forward<Params>(params)...)] {
-        std::apply(
-          [&, this](auto&&... unpackedArgs) {
-            // Explicit copy, we move 'nodes' in group creation
-            auto range_copy = nodes->makeList();
-            auto id =
-              theGroup()->newGroup(std::move(nodes), [&, this](GroupType type) {
-                multicast<f>(
-                  type, std::forward<decltype(unpackedArgs)>(unpackedArgs)...);
-              });
-            theGroup()->AddNewTempGroup(range_copy, id);
-          },
-          std::move(args));
+        theGroup()->newGroup(
+          region->copy(), [proxy, range, args](GroupType type) {
+            // Other multicasts can use the group from now on
+            theGroup()->AddNewTempGroup(range, type);
+            std::apply(
+              [&](auto const&... unpackedArgs) {
+                proxy.template multicast<f>(type, unpackedArgs...);
+              },
+              args);
+          });
       }};
   } else {
     return multicast<f>(groupID.value(), std::forward<Params>(params)...);
-- 
2.43.0


From f91fcce0b77793189fa825e68fa40c272ded7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 32/59] fix: run messages on the current object of an object
 group, not a replaced one

---
 src/vt/objgroup/manager.static.h | 12 ++++++------
 src/vt/runnable/make_runnable.h  | 14 ++++++++++++++
 src/vt/runnable/runnable.cc      | 10 ++++++++++
 src/vt/runnable/runnable.h       | 19 +++++++++++++++++++
 4 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/vt/objgroup/manager.static.h b/src/vt/objgroup/manager.static.h
index 75eadb1..27e4dff 100644
--- a/src/vt/objgroup/manager.static.h
+++ b/src/vt/objgroup/manager.static.h
@@ -106,17 +106,17 @@ messaging::PendingSend broadcast(MsgSharedPtr<MsgT> msg, HandlerType han) {
 
 namespace detail {
 
-template <typename MsgT, typename ObjT>
+template <typename MsgT>
 void dispatchImpl(
   MsgSharedPtr<MsgT> const& msg, HandlerType han, NodeType from_node,
-  ActionType cont, ObjT* obj
+  ActionType cont
 ) {
   auto holder = detail::getHolderBase(han);
   auto const& elm_id = holder->getElmID();
   auto lb_data = &holder->getLBData();
   runnable::makeRunnable(msg, true, han, from_node)
     .withContinuation(cont)
-    .withObjGroup(obj)
+    .withObjGroup(holder)
     .withLBData(lb_data, elm_id)
     .withTDEpochFromMsg()
     .enqueue();
@@ -150,15 +150,15 @@ void dispatch(
     auto& pending = getPending();
     pending[proxy].emplace_back([=]{
       auto& objs2 = getObjs();
-      auto obj_iter2 = objs2.find(proxy);
+      [[maybe_unused]] auto obj_iter2 = objs2.find(proxy);
       vtAssert(obj_iter2 != objs2.end(), "Obj must exist");
-      detail::dispatchImpl(msg, han, from_node, cont, obj_iter2->second->getPtr());
+      detail::dispatchImpl(msg, han, from_node, cont);
       if (epoch != no_epoch) {
         theTerm()->consume(epoch);
       }
     });
   } else {
-    detail::dispatchImpl(msg, han, from_node, cont, obj_iter->second->getPtr());
+    detail::dispatchImpl(msg, han, from_node, cont);
   }
 }
 
diff --git a/src/vt/runnable/make_runnable.h b/src/vt/runnable/make_runnable.h
index 9fdd519..4be3d11 100644
--- a/src/vt/runnable/make_runnable.h
+++ b/src/vt/runnable/make_runnable.h
@@ -172,6 +172,20 @@ struct RunnableMaker {
     return std::move(*this);
   }
 
+  /**
+   * \brief Add an objgroup, whose object is looked up when the runnable starts;
+   * sets up the handler
+   *
+   * \param[in] holder the holder of the object
+   */
+  RunnableMaker&& withObjGroup(objgroup::holder::HolderBase* holder) {
+    set_handler_ = true;
+    if (handler_ != uninitialized_handler) {
+      impl_->setupHandlerObjGroup(holder, handler_);
+    }
+    return std::move(*this);
+  }
+
   /**
    * \brief Add LB data for instrumentation
    *
diff --git a/src/vt/runnable/runnable.cc b/src/vt/runnable/runnable.cc
index f9d7c0a..b487099 100644
--- a/src/vt/runnable/runnable.cc
+++ b/src/vt/runnable/runnable.cc
@@ -84,6 +84,13 @@ void RunnableNew::setupHandlerObjGroup(std::byte* obj, HandlerType handler) {
   obj_ = obj;
 }
 
+void RunnableNew::setupHandlerObjGroup(
+  objgroup::holder::HolderBase* holder, HandlerType handler
+) {
+  setupHandlerObjGroup(holder->getPtr(), handler);
+  obj_holder_ = holder;
+}
+
 void RunnableNew::setupHandlerElement(
   vrt::collection::UntypedCollection* elm, HandlerType handler
 ) {
@@ -145,6 +152,9 @@ void RunnableNew::run() {
   } else
 #endif
   {
+    if (obj_holder_ != nullptr) {
+      obj_ = obj_holder_->getPtr();
+    }
     start(start_time);
   }
 
diff --git a/src/vt/runnable/runnable.h b/src/vt/runnable/runnable.h
index 284c550..cb11783 100644
--- a/src/vt/runnable/runnable.h
+++ b/src/vt/runnable/runnable.h
@@ -69,6 +69,12 @@ struct UntypedCollection;
 
 }}} /* end namespace vt::vrt::collection */
 
+namespace vt { namespace objgroup { namespace holder {
+
+struct HolderBase;
+
+}}} /* end namespace vt::objgroup::holder */
+
 namespace vt { namespace runnable {
 
 namespace detail {
@@ -210,6 +216,17 @@ public:
    */
   void setupHandlerObjGroup(std::byte* obj, HandlerType handler);
 
+  /**
+   * \brief Set up a handler to run on the object that an object group's holder
+   * has when the runnable starts: it might be updated until then
+   *
+   * \param[in] holder the holder of the object
+   * \param[in] handler the handler ID bits
+   */
+  void setupHandlerObjGroup(
+    objgroup::holder::HolderBase* holder, HandlerType handler
+  );
+
   /**
    * \brief Set up a handler to run on an non-collection object
    *
@@ -385,6 +402,8 @@ private:
   detail::Contexts contexts_;               /**< The contexts  */
   MsgSharedPtr<BaseMsgType> msg_ = nullptr; /**< The associated message */
   std::byte* obj_ = nullptr;                     /**< Object pointer */
+  /// Holder of the object, if it is only known when the runnable starts
+  objgroup::holder::HolderBase* obj_holder_ = nullptr;
   union {
     DispatcherType func_;
     DispatcherScatterType func_scat_;
-- 
2.43.0


From 17b911799f9c0eb70ab8ed95ce5fef4c003576c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 33/59] fix: RandomLB never ended on a rank without objects

---
 src/vt/vrt/collection/balance/randomlb/randomlb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vt/vrt/collection/balance/randomlb/randomlb.cc b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
index 42032a7..ef01ed7 100644
--- a/src/vt/vrt/collection/balance/randomlb/randomlb.cc
+++ b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
@@ -126,6 +126,11 @@ void RandomLB::runLB(LoadType) {
     }
   }
 
+  // this node might not have any objects
+  if (objs.empty()) {
+    return;
+  }
+
   // we skip the first object to be certain we never end up with zero objects
   for (auto it = ++objs.begin(); it != objs.end(); ++it) {
     auto const to_node = dist(gen);
-- 
2.43.0


From bdb99a3f8532b3036236c6fca2cec571775688d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 34/59] fix: HierarchicalLB's tree lost nodes when their number
 is odd

---
 .../collection/balance/hierarchicallb/hierlb.cc  | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
index a89ab18..af29742 100644
--- a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
+++ b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
@@ -196,11 +196,8 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   if (children.size() == 0) {
     for (NodeType node = 0; node < hierlb_nary; node++) {
-      NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-      if (factor < num_nodes) {
-        factor += hierlb_nary;
-      }
-      NodeType const child = (this_node * hierlb_nary + node + 1) - factor - 1;
+      NodeType const factor = num_nodes / hierlb_nary * hierlb_nary;
+      NodeType const child = this_node * hierlb_nary + node - factor;
       if (child < num_nodes && child >= 0) {
         children.emplace(
           std::piecewise_construct,
@@ -220,12 +217,11 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   parent = (this_node - 1) / hierlb_nary;
 
-  NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-  if (factor < num_nodes) {
-    factor += hierlb_nary;
-  }
+  // Rounded down, so that the parents are exactly the leaves of the tree for
+  // any number of nodes
+  NodeType const factor = num_nodes / hierlb_nary * hierlb_nary;
 
-  bottom_parent = ((this_node + 1 + factor) - 1) / hierlb_nary;
+  bottom_parent = (this_node + factor) / hierlb_nary;
 
   vt_debug_print(
     normal, hierlb,
-- 
2.43.0


From 8d406d15be255d13794dfb691b13e2c192755ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 35/59] fix: messages sent during startup were recorded for an
 invalid element

---
 src/vt/messaging/active.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 42fec5b..dfc05cf 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -148,12 +148,13 @@ ActiveMessenger::ActiveMessenger()
 
 void ActiveMessenger::initialize() {
   comm_ = theContext()->getComm();
-}
 
-void ActiveMessenger::startup() {
+  // Messages are sent (and recorded) before all components have started up
   bare_handler_dummy_elm_id_for_lb_data_ =
-    elm::ElmIDBits::createBareHandler(this_node_);
+    elm::ElmIDBits::createBareHandler(theContext()->getNode());
+}
 
+void ActiveMessenger::startup() {
 #if vt_check_enabled(lblite)
   // Hook to collect LB data about objgroups
   thePhase()->registerHookCollective(phase::PhaseHook::DataCollection, [this]{
-- 
2.43.0


From ddcfb7fc837b27fe3de9a3499efea7638d96d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 36/59] fix: OfflineLB failed on ranks without objects in a
 phase

---
 src/vt/vrt/collection/balance/lb_data_restart_reader.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
index be21ad3..189059b 100644
--- a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
+++ b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
@@ -103,11 +103,12 @@ void LBDataRestartReader::readHistory(LBDataHolder const& lbdh) {
     auto iter = lbdh.node_data_.find(phase);
     if (iter != lbdh.node_data_.end()) {
       last_found_phase = phase;
+      // this node might not have any migratable objects in the phase
+      if (history_[phase] == nullptr) {
+        history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
+      }
       for (auto const& obj : iter->second) {
         if (obj.first.isMigratable()) {
-          if (history_[phase] == nullptr) {
-            history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
-          }
           history_[phase]->insert(obj.first);
         }
       }
-- 
2.43.0


From 5a8f73951f4f0b60d254af29d9e8afd6db23210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 37/59] fix: LB statistics of skipped phases leaked into the
 entry of a later phase

---
 src/vt/utils/json/json_appender.h                 |  7 +++++++
 .../collection/balance/lb_invoke/lb_manager.cc    | 15 +++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/vt/utils/json/json_appender.h b/src/vt/utils/json/json_appender.h
index 808e739..fc7164e 100644
--- a/src/vt/utils/json/json_appender.h
+++ b/src/vt/utils/json/json_appender.h
@@ -145,6 +145,13 @@ struct Appender : BaseAppender {
     }
   }
 
+  /**
+   * \brief Throw away the staged object, if there is one
+   */
+  void discardStaged() {
+    staged_.reset();
+  }
+
   /**
    * \brief Finalize the output, closing the array, and flushing the stream
    */
diff --git a/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc b/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
index d54ba31..d5f309c 100644
--- a/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
+++ b/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
@@ -664,9 +664,17 @@ void LBManager::stagePostLBStatistics(
 void LBManager::commitPhaseStatistics(PhaseType phase) {
   // Statistics output when LB is enabled, appropriate flag is enabled,
   // and the user-defined frequency is respected
-  if (theContext()->getNode() != 0 \
-      or !theConfig()->vt_lb_statistics \
-      or phase % theConfig()->vt_lb_statistics_freq != 0) {
+  if (theContext()->getNode() != 0 or !theConfig()->vt_lb_statistics) {
+    return;
+  }
+
+  using JSONAppender = util::json::Appender<std::ofstream>;
+
+  if (phase % theConfig()->vt_lb_statistics_freq != 0) {
+    // the statistics of this phase must not end up in the entry of a later one
+    if (statistics_writer_) {
+      static_cast<JSONAppender*>(statistics_writer_.get())->discardStaged();
+    }
     return;
   }
 
@@ -686,7 +694,6 @@ void LBManager::commitPhaseStatistics(PhaseType phase) {
     createStatisticsFile();
   }
 
-  using JSONAppender = util::json::Appender<std::ofstream>;
   auto writer = static_cast<JSONAppender*>(statistics_writer_.get());
   writer->stageObject(j);
   writer->commitStaged();
-- 
2.43.0


From 76814b0b467591081600f33393f756e647245fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 38/59] fix: get of an RDMA handle ignored the requested lock

---
 src/vt/rdmahandle/handle.index.impl.h | 5 ++---
 src/vt/rdmahandle/handle.node.impl.h  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdmahandle/handle.index.impl.h b/src/vt/rdmahandle/handle.index.impl.h
index 88d7ed8..dbda28d 100644
--- a/src/vt/rdmahandle/handle.index.impl.h
+++ b/src/vt/rdmahandle/handle.index.impl.h
@@ -141,10 +141,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<not std::is_same<I,vt::NodeType>::value>
 >::get(
-  I const& index, std::size_t len, int offset, [[maybe_unused]] Lock l
+  I const& index, std::size_t len, int offset, Lock l
 ) {
-  auto proxy = vt::objgroup::proxy::Proxy<SubHandle<T,E,I>>(proxy_);
-  proxy.get()->rget(index, len, offset);
+  rget(index, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
diff --git a/src/vt/rdmahandle/handle.node.impl.h b/src/vt/rdmahandle/handle.node.impl.h
index df5c380..7a74bc6 100644
--- a/src/vt/rdmahandle/handle.node.impl.h
+++ b/src/vt/rdmahandle/handle.node.impl.h
@@ -80,9 +80,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<std::is_same<I,vt::NodeType>::value>
 >::get(
-  vt::NodeType node, std::size_t len, int offset, [[maybe_unused]] Lock l
+  vt::NodeType node, std::size_t len, int offset, Lock l
 ) {
-  rget(node, len, offset);
+  rget(node, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
-- 
2.43.0


From 77796c4622008c196989f8598d611d242bd2aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 39/59] fix: the count of an RDMA handle was visible before it
 was stored

---
 src/vt/rdmahandle/holder.impl.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/vt/rdmahandle/holder.impl.h b/src/vt/rdmahandle/holder.impl.h
index 0df0b02..f68ec07 100644
--- a/src/vt/rdmahandle/holder.impl.h
+++ b/src/vt/rdmahandle/holder.impl.h
@@ -79,21 +79,18 @@ void Holder<T,E>::allocateDataWindow(std::size_t const in_len) {
   if (not uniform_size_) {
     // Allocate control window
     MPI_Alloc_mem(sizeof(uint64_t), MPI_INFO_NULL, &control_base_);
+    // Store the count before the window exists: another node can fetch it as
+    // soon as the window is created there
+    *control_base_ = count_;
     MPI_Win_create(
       control_base_, sizeof(uint64_t), sizeof(uint64_t), MPI_INFO_NULL, comm,
       &control_window_
     );
-    {
-      auto this_node = theContext()->getNode();
-      LockMPI _scope_lock(Lock::Exclusive, this_node, control_window_, false);
-      auto mpi_type = TypeMPI<uint64_t>::getType();
-      MPI_Put(&count_, 1, mpi_type, this_node, 0, 1, mpi_type, control_window_);
-      vt_debug_print(
-        verbose, rdma,
-        "setting allocate size: size={}, window={}\n",
-        count_, print_ptr(&control_window_)
-      );
-    }
+    vt_debug_print(
+      verbose, rdma,
+      "setting allocate size: size={}, window={}\n",
+      count_, print_ptr(&control_window_)
+    );
   }
   ready_ = true;
 }
-- 
2.43.0


From 688f05c57c1a288021ae6a7f03069d889adb6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 40/59] fix: RDMA handles made concurrently were mixed up
 between nodes

---
 src/vt/rdmahandle/manager.h      | 14 --------
 src/vt/rdmahandle/manager.impl.h | 61 +++-----------------------------
 2 files changed, 5 insertions(+), 70 deletions(-)

diff --git a/src/vt/rdmahandle/manager.h b/src/vt/rdmahandle/manager.h
index 8feba1d..f824ea5 100644
--- a/src/vt/rdmahandle/manager.h
+++ b/src/vt/rdmahandle/manager.h
@@ -64,11 +64,6 @@ namespace vt { namespace rdma {
 
 namespace impl {
 
-struct HandleData;
-
-template <typename T, HandleEnum E, typename ProxyT>
-struct ConstructMsg;
-
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg;
 
@@ -102,15 +97,6 @@ private:
    */
   void setup(ProxyType in_proxy);
 
-  /**
-   * \internal \brief Finish constructing a handle after coordinating each node on
-   * construction
-   *
-   * \param[in] msg construction meta-data message
-   */
-  template <typename T, HandleEnum E, typename ProxyT>
-  void finishMake(impl::ConstructMsg<T, E, ProxyT>* msg);
-
   /**
    * \internal \brief Inform all nodes that an RDMA handle is being constructed,
    * required when a collection is not mapped to all nodes
diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index c52d83e..4d2a16c 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -53,39 +53,6 @@
 namespace vt { namespace rdma {
 namespace impl {
 
-struct HandleData {
-  // #949. NVCC shim: Ensure type is compatible with serialization.
-  using isByteCopyable = std::true_type;
-
-  HandleData();
-  HandleData(HandleKey in_key, std::size_t in_size, int in_count)
-    : key_(in_key),
-      size_(in_size),
-      count_(in_count)
-  { }
-
-  friend HandleData operator+(HandleData a1, HandleData const& a2) {
-    vtAssertExpr(a1.key_.handle_ != vt::no_rdma_handle);
-    vtAssertExpr(a1.key_.handle_ == a2.key_.handle_);
-    vtAssertExpr(a1.key_.isObjGroup() == a2.key_.isObjGroup());
-    a1.size_ += a2.size_;
-    a1.count_ += a2.count_;
-    return a1;
-  }
-
-  HandleKey key_;
-  std::size_t size_ = 0;
-  int count_ = 0;
-};
-
-template <typename T, HandleEnum E, typename ProxyT>
-struct ConstructMsg : vt::collective::ReduceTMsg<HandleData> {
-  ConstructMsg() = default;
-  explicit ConstructMsg(HandleData&& data)
-    : vt::collective::ReduceTMsg<HandleData>(std::move(data))
-  { }
-};
-
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg : vt::Message {
   InformRDMAMsg() = default;
@@ -108,22 +75,6 @@ struct InformRDMAMsg : vt::Message {
 
 } /* end namespace impl */
 
-template <typename T, HandleEnum E, typename ProxyT>
-void Manager::finishMake(impl::ConstructMsg<T, E, ProxyT>* msg) {
-  auto const& key = msg->getVal().key_;
-  auto const& size = msg->getVal().size_;
-  auto const& count = msg->getVal().count_;
-  vt_debug_print(
-    normal, rdma,
-    "finishMake: handle={:x}, size={}, count={}\n",
-    key.handle_, size, count
-  );
-  auto& entry = getEntry<T,E>(key);
-  collective_scope_.mpiCollectiveWait([&entry]{
-    entry.allocateDataWindow();
-  });
-}
-
 template <typename T, HandleEnum E, typename ProxyT>
 Handle<T, E> Manager::makeHandleCollectiveObjGroup(
   ProxyT proxy, std::size_t size, bool uniform_size
@@ -137,13 +88,11 @@ Handle<T, E> Manager::makeHandleCollectiveObjGroup(
   holder_footprint_[key] = [&holder = holder_<T,E>[key]]() {
     return checkpoint::getMemoryFootprint(holder);
   };
-  auto cb = vt::theCB()->makeBcast<
-    Manager, impl::ConstructMsg<T, E, ProxyT>, &Manager::finishMake<T, E, ProxyT>
-  >(proxy_);
-  auto msg = vt::makeMessage<impl::ConstructMsg<T, E, ProxyT>>(
-    impl::HandleData{key, size, 1}
-  );
-  proxy_.template reduce<vt::collective::PlusOp<impl::HandleData>>(msg.get(),cb);
+  // The order in which handles are made is the same on all nodes. Thus, enqueue
+  // the collective here: messages may be delivered in another order on each node
+  collective_scope_.mpiCollectiveAsync([key]{
+    vt::theHandleRDMA()->getEntry<T,E>(key).allocateDataWindow();
+  });
   return han;
 }
 
-- 
2.43.0


From 31883e88026c3f45655382ad4644f2b50b96d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 41/59] fix: location table of an RDMA handle set could be read
 before it was filled

---
 src/vt/rdmahandle/sub_handle.impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 057174e..b2b5b02 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -97,8 +97,6 @@ void SubHandle<T,E,IndexT>::makeSubHandles(bool initial) {
       i, sub_prefix_[i], sub_layout_[i]
     );
   }
-  data_handle_ = proxy_.template makeHandleRDMA<T>(total, false);
-  waitForHandleReady(data_handle_);
   if (initial) {
     // Handle case when the local size is zero
     auto loc_len =
@@ -137,6 +135,10 @@ void SubHandle<T,E,IndexT>::makeSubHandles(bool initial) {
       }
     }
   }
+  // Make the data handle last: it is ready once all nodes have started making
+  // it, thus after the location info was written on all of them
+  data_handle_ = proxy_.template makeHandleRDMA<T>(total, false);
+  waitForHandleReady(data_handle_);
   ready_ = true;
 }
 
-- 
2.43.0


From 07a7f3fa9dcffa306554dc20ebf54babb1b246b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 42/59] fix: local access to an index of an RDMA handle got the
 count of the whole window

---
 src/vt/rdmahandle/sub_handle.impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index b2b5b02..debced8 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -418,7 +418,11 @@ void SubHandle<T,E,IndexT>::access(
   auto iter = sub_handles_.find(idx);
   vtAssert(iter != sub_handles_.end(), "Index must be local here");
   auto local_offset  = iter->second.offset_;
-  data_handle_.access(l, fn, offset + local_offset);
+  auto local_count   = iter->second.count_;
+  // The window extends past this index, only expose what belongs to it
+  data_handle_.access(l, [&](T* ptr, std::size_t) {
+    fn(ptr, local_count - offset);
+  }, offset + local_offset);
 }
 
 template <typename T, HandleEnum E, typename IndexT>
-- 
2.43.0


From 56782efa8098319b82f2778a705f794d50262f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 43/59] fix: element listener and phase hook outlived a
 destroyed RDMA handle

---
 src/vt/rdmahandle/manager.collection.impl.h | 20 ++++++++++++++++----
 src/vt/rdmahandle/sub_handle.h              |  4 ++++
 src/vt/rdmahandle/sub_handle.impl.h         |  3 +++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/vt/rdmahandle/manager.collection.impl.h b/src/vt/rdmahandle/manager.collection.impl.h
index 22d78da..25189f1 100644
--- a/src/vt/rdmahandle/manager.collection.impl.h
+++ b/src/vt/rdmahandle/manager.collection.impl.h
@@ -113,7 +113,9 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
         sub_proxy.get()->migratedInIndex(lidx);
       }
     };
-    theCollection()->template registerElementListener<ColT>(proxy_bits, fn);
+    auto listener = theCollection()->template registerElementListener<ColT>(
+      proxy_bits, fn
+    );
 
     // Count the number of local handles that should exist here. We can't use the
     // cached value in the collection manager since this might be invoked in the
@@ -137,11 +139,21 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
       verbose, rdma,
       "CollectionHandle: registering LB listener\n"
     );
-    thePhase()->registerHookCollective(phase::PhaseHook::EndPostMigration, [=]{
-      sub_proxy.get()->afterLB();
-    });
+    auto hook = thePhase()->registerHookCollective(
+      phase::PhaseHook::EndPostMigration, [=]{ sub_proxy.get()->afterLB(); }
+    );
 #   endif
 
+    // The listener and the hook must not outlive the sub-handle manager
+    sub_proxy.get()->setOnDestroy([=]{
+      theCollection()->template unregisterElementListener<ColT>(
+        proxy_bits, listener
+      );
+#     if vt_check_enabled(lblite)
+      thePhase()->unregisterHook(hook);
+#     endif
+    });
+
     // Set the number of expected handles for next time we run through this code
     sub_proxy.get()->setCollectionExpected(local_count);
 
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index 2e7d2f4..fe3a403 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -51,6 +51,7 @@
 #include "vt/topos/mapping/mapping_headers.h"
 #include "vt/topos/mapping/dense/dense.h"
 
+#include <functional>
 #include <unordered_map>
 
 namespace vt { namespace rdma {
@@ -158,6 +159,8 @@ public:
 
   void setCollectionExpected(std::size_t count);
 
+  void setOnDestroy(std::function<void()> fn) { on_destroy_ = fn; }
+
   void destroy();
 
   static void destroyCollective(ProxyType proxy);
@@ -198,6 +201,7 @@ protected:
   std::unordered_map<IndexT, int> ordered_local_offset_;
   bool dense_start_with_zero_ = true;
   std::size_t deleted_count_ = 0;
+  std::function<void()> on_destroy_ = nullptr;
 };
 
 }} /* end namespace vt::rdma */
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index debced8..7561c21 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -533,6 +533,9 @@ void SubHandle<T,E,IndexT>::destroy() {
 template <typename T, HandleEnum E, typename IndexT>
 /*static*/ void SubHandle<T,E,IndexT>::destroyCollective(ProxyType proxy) {
   proxy.get()->destroy();
+  if (proxy.get()->on_destroy_) {
+    proxy.get()->on_destroy_();
+  }
   theObjGroup()->destroyCollective(proxy);
 }
 
-- 
2.43.0


From b907a60de2b2dd046e38ab81124a868aa7063576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 44/59] fix: make progress whenever the scheduler has no work,
 also with --vt_sched_progress_han/_sec

---
 src/vt/scheduler/scheduler.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index d2c6ba1..c779586 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -251,7 +251,13 @@ void Scheduler::runSchedulerOnceImpl(bool msg_only) {
   if (special_progress_) {
     auto current_time = getRecentTime();
     auto time_since_last_progress = current_time - last_progress_time_;
-    if (shouldCallProgress(processed_after_last_progress_, time_since_last_progress)) {
+    // Without any work, only progress can make some available
+    if (
+      work_queue_.empty() or
+      shouldCallProgress(
+        processed_after_last_progress_, time_since_last_progress
+      )
+    ) {
       runProgress(msg_only, current_time);
     }
   } else if (work_queue_.empty()) {
-- 
2.43.0


From be306e9b1b11aecdaf6ca77ffb761d391c67e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 45/59] fix: read LB data of a phase in which a node had no
 objects

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index d736b94..128b067 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -437,7 +437,8 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
   if (phases.is_array()) {
     for (auto const& phase : phases) {
       auto id = phase["id"];
-      auto tasks = phase["tasks"];
+      // A phase in which the node did not have any objects has no tasks
+      auto tasks = phase.value("tasks", nlohmann::json::array());
 
       this->node_data_[id];
       this->node_comm_[id];
-- 
2.43.0


From 622fae9f16fdd70ec7d4a631c6b0b4829b5758ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 46/59] fix: a late location update brought back the record of
 a destroyed element

---
 src/vt/topos/location/location.impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 469672c..156fb8a 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -438,8 +438,12 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
     id, home_node, deliver_node
   );
 
-  // Insert a new entry in the cache for the updated location
-  recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, deliver_node});
+  // Insert a new entry in the cache for the updated location. The home node had
+  // a record when it forwarded the message: if there is none any more, the
+  // entity was unregistered in the meantime and must not come back
+  if (this_node != home_node or recs_.exists(id)) {
+    recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, deliver_node});
+  }
 
   auto ask_iter = loc_asks_.find(id);
   if (ask_iter != loc_asks_.end()) {
-- 
2.43.0


From 62b60622d3453b501e87ac1ebe7c6e97a14f6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 47/59] fix: load of an object that did no work in a subphase

LoadSummary::get threw out_of_range and ElementLBData::getLoad asserted,
so any load balancer run with an idle element died.
---
 src/vt/elm/elm_lb_data.cc                 | 9 ++++++---
 src/vt/vrt/collection/balance/lb_common.h | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 60fed5b..88720c3 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -236,10 +236,13 @@ ElementLBData::getLoad(PhaseType phase, SubphaseType subphase) const {
   if (subphase == no_subphase)
     return getLoad(phase);
 
-  auto const& subphase_loads = subphase_timings_.at(phase);
+  auto iter = subphase_timings_.find(phase);
+  if (iter == subphase_timings_.end() or iter->second.size() <= subphase) {
+    // no work was done in this subphase
+    return 0.0;
+  }
 
-  vtAssert(subphase_loads.size() > subphase, "Must have subphase");
-  auto const total_load = subphase_loads.at(subphase);
+  auto const total_load = iter->second.at(subphase);
 
   vt_debug_print(
     verbose, lb,
diff --git a/src/vt/vrt/collection/balance/lb_common.h b/src/vt/vrt/collection/balance/lb_common.h
index e9e403b..2d91c92 100644
--- a/src/vt/vrt/collection/balance/lb_common.h
+++ b/src/vt/vrt/collection/balance/lb_common.h
@@ -92,8 +92,10 @@ struct LoadSummary {
   {
     if (when.subphase == PhaseOffset::WHOLE_PHASE)
       return whole_phase_load;
+    else if (when.subphase < subphase_loads.size())
+      return subphase_loads[when.subphase];
     else
-      return subphase_loads.at(when.subphase);
+      return 0.0; // no work was recorded in that subphase
   }
 
   void operator += (const LoadSummary& rhs) {
-- 
2.43.0


From 6c80f26a92752d721074e1cd9e1b2357421f850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 48/59] fix: linear and median load models failed when asked
 for raw loads or user data

Load balancers ask for those of the next phase, which only exist for
past ones: answer with the last phase, as NaivePersistence does.
---
 .../vrt/collection/balance/model/linear_model.cc | 16 ++++++++++++++++
 .../vrt/collection/balance/model/linear_model.h  |  2 ++
 .../balance/model/persistence_median_last_n.cc   | 16 ++++++++++++++++
 .../balance/model/persistence_median_last_n.h    |  2 ++
 4 files changed, 36 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/linear_model.cc b/src/vt/vrt/collection/balance/model/linear_model.cc
index 3ba99e6..2ce9b64 100644
--- a/src/vt/vrt/collection/balance/model/linear_model.cc
+++ b/src/vt/vrt/collection/balance/model/linear_model.cc
@@ -73,6 +73,22 @@ LoadType LinearModel::getModeledLoad(ElementIDStruct object, PhaseOffset when) c
   return regression.predict(when.phases);
 }
 
+LoadType LinearModel::getRawLoad(ElementIDStruct object, PhaseOffset when) const
+{
+  if (when.phases >= 0)
+    when.phases = -1;
+
+  return ComposedModel::getRawLoad(object, when);
+}
+
+ElmUserDataType LinearModel::getUserData(ElementIDStruct object, PhaseOffset when) const
+{
+  if (when.phases >= 0)
+    when.phases = -1;
+
+  return ComposedModel::getUserData(object, when);
+}
+
 unsigned int LinearModel::getNumPastPhasesNeeded(unsigned int look_back) const
 {
   return ComposedModel::getNumPastPhasesNeeded(std::max(past_len_, look_back));
diff --git a/src/vt/vrt/collection/balance/model/linear_model.h b/src/vt/vrt/collection/balance/model/linear_model.h
index cb17d54..fe2d4c6 100644
--- a/src/vt/vrt/collection/balance/model/linear_model.h
+++ b/src/vt/vrt/collection/balance/model/linear_model.h
@@ -70,6 +70,8 @@ struct LinearModel : ComposedModel {
   { }
 
   LoadType getModeledLoad(ElementIDStruct object, PhaseOffset when) const override;
+  LoadType getRawLoad(ElementIDStruct object, PhaseOffset when) const override;
+  ElmUserDataType getUserData(ElementIDStruct object, PhaseOffset when) const override;
   unsigned int getNumPastPhasesNeeded(unsigned int look_back) const override;
 
 private:
diff --git a/src/vt/vrt/collection/balance/model/persistence_median_last_n.cc b/src/vt/vrt/collection/balance/model/persistence_median_last_n.cc
index 10191c0..afa9851 100644
--- a/src/vt/vrt/collection/balance/model/persistence_median_last_n.cc
+++ b/src/vt/vrt/collection/balance/model/persistence_median_last_n.cc
@@ -77,6 +77,22 @@ LoadType PersistenceMedianLastN::getModeledLoad(
     return (times[phases / 2 - 1] + times[phases / 2]) / 2;
 }
 
+LoadType PersistenceMedianLastN::getRawLoad(ElementIDStruct object, PhaseOffset when) const
+{
+  if (when.phases >= 0)
+    when.phases = -1;
+
+  return ComposedModel::getRawLoad(object, when);
+}
+
+ElmUserDataType PersistenceMedianLastN::getUserData(ElementIDStruct object, PhaseOffset when) const
+{
+  if (when.phases >= 0)
+    when.phases = -1;
+
+  return ComposedModel::getUserData(object, when);
+}
+
 unsigned int PersistenceMedianLastN::getNumPastPhasesNeeded(unsigned int look_back) const
 {
   return ComposedModel::getNumPastPhasesNeeded(std::max(n_, look_back));
diff --git a/src/vt/vrt/collection/balance/model/persistence_median_last_n.h b/src/vt/vrt/collection/balance/model/persistence_median_last_n.h
index 9012cf9..a23b88e 100644
--- a/src/vt/vrt/collection/balance/model/persistence_median_last_n.h
+++ b/src/vt/vrt/collection/balance/model/persistence_median_last_n.h
@@ -66,6 +66,8 @@ struct PersistenceMedianLastN : public ComposedModel
   PersistenceMedianLastN(std::shared_ptr<LoadModel> base, unsigned int n);
 
   LoadType getModeledLoad(ElementIDStruct object, PhaseOffset when) const override;
+  LoadType getRawLoad(ElementIDStruct object, PhaseOffset when) const override;
+  ElmUserDataType getUserData(ElementIDStruct object, PhaseOffset when) const override;
   unsigned int getNumPastPhasesNeeded(unsigned int look_back) const override;
 
 private:
-- 
2.43.0


From 822551ef46136e83776fc07edb9cc91571b72f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 49/59] fix: load models with communication failed when asked
 about the next phase

The communication of a phase that is still to come is not known: use that
of the last phase.
---
 src/vt/vrt/collection/balance/model/comm_overhead.cc     | 4 ++++
 src/vt/vrt/collection/balance/model/naive_persistence.cc | 8 ++++++++
 src/vt/vrt/collection/balance/model/naive_persistence.h  | 1 +
 src/vt/vrt/collection/balance/model/weighted_messages.cc | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/comm_overhead.cc b/src/vt/vrt/collection/balance/model/comm_overhead.cc
index 8b9558f..c9a3742 100644
--- a/src/vt/vrt/collection/balance/model/comm_overhead.cc
+++ b/src/vt/vrt/collection/balance/model/comm_overhead.cc
@@ -66,6 +66,10 @@ CommOverhead::getModeledLoad(ElementIDStruct object, PhaseOffset offset) const {
   auto work = ComposedModel::getModeledLoad(object, offset);
 
   auto phase = getNumCompletedPhases() + offset.phases;
+  if (offset.phases >= 0 and proc_comm_->find(phase) == proc_comm_->end()) {
+    // only known for completed phases: assume that it persists
+    phase = getNumCompletedPhases() - 1;
+  }
   auto& comm = proc_comm_->at(phase);
 
   LoadType overhead = 0.;
diff --git a/src/vt/vrt/collection/balance/model/naive_persistence.cc b/src/vt/vrt/collection/balance/model/naive_persistence.cc
index cc37990..c194676 100644
--- a/src/vt/vrt/collection/balance/model/naive_persistence.cc
+++ b/src/vt/vrt/collection/balance/model/naive_persistence.cc
@@ -58,6 +58,14 @@ NaivePersistence::getModeledLoad(ElementIDStruct object, PhaseOffset offset) con
   return ComposedModel::getModeledLoad(object, offset);
 }
 
+LoadType
+NaivePersistence::getModeledComm(ElementIDStruct object, PhaseOffset offset) const {
+  if (offset.phases >= 0)
+    offset.phases = -1;
+
+  return ComposedModel::getModeledComm(object, offset);
+}
+
 LoadType NaivePersistence::getRawLoad(ElementIDStruct object, PhaseOffset offset) const
 {
   if (offset.phases >= 0)
diff --git a/src/vt/vrt/collection/balance/model/naive_persistence.h b/src/vt/vrt/collection/balance/model/naive_persistence.h
index 9c6991a..c7ffbb7 100644
--- a/src/vt/vrt/collection/balance/model/naive_persistence.h
+++ b/src/vt/vrt/collection/balance/model/naive_persistence.h
@@ -61,6 +61,7 @@ struct NaivePersistence : public ComposedModel {
    */
   explicit NaivePersistence(std::shared_ptr<balance::LoadModel> base);
   LoadType getModeledLoad(ElementIDStruct object, PhaseOffset when) const override;
+  LoadType getModeledComm(ElementIDStruct object, PhaseOffset offset) const override;
   LoadType getRawLoad(ElementIDStruct object, PhaseOffset offset) const override;
   ElmUserDataType getUserData(ElementIDStruct object, PhaseOffset when) const override;
   unsigned int getNumPastPhasesNeeded(unsigned int look_back) const override;
diff --git a/src/vt/vrt/collection/balance/model/weighted_messages.cc b/src/vt/vrt/collection/balance/model/weighted_messages.cc
index 0d3d044..ee797fb 100644
--- a/src/vt/vrt/collection/balance/model/weighted_messages.cc
+++ b/src/vt/vrt/collection/balance/model/weighted_messages.cc
@@ -48,6 +48,10 @@ namespace vt { namespace vrt { namespace collection { namespace balance {
 LoadType
 WeightedMessages::getModeledComm(ElementIDStruct object, PhaseOffset when) const {
   auto phase = getNumCompletedPhases() + when.phases;
+  if (when.phases >= 0 and proc_comm_->find(phase) == proc_comm_->end()) {
+    // only known for completed phases: assume that it persists
+    phase = getNumCompletedPhases() - 1;
+  }
   auto& comm = proc_comm_->at(phase);
 
   LoadType incoming = 0., outgoing = 0.;
-- 
2.43.0


From 0d91ad018cff40337c6e7ae80122f42a6dd2c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 50/59] fix: communication costs of objects without work were
 NaN in subphases

---
 src/vt/vrt/collection/balance/model/comm_overhead.cc     | 6 ++++++
 src/vt/vrt/collection/balance/model/weighted_messages.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/comm_overhead.cc b/src/vt/vrt/collection/balance/model/comm_overhead.cc
index c9a3742..5132e5a 100644
--- a/src/vt/vrt/collection/balance/model/comm_overhead.cc
+++ b/src/vt/vrt/collection/balance/model/comm_overhead.cc
@@ -44,6 +44,8 @@
 
 #include "vt/vrt/collection/balance/model/comm_overhead.h"
 
+#include <algorithm>
+
 namespace vt { namespace vrt { namespace collection { namespace balance {
 
 CommOverhead::CommOverhead(
@@ -88,6 +90,10 @@ CommOverhead::getModeledLoad(ElementIDStruct object, PhaseOffset offset) const {
     auto whole_phase_work = ComposedModel::getModeledLoad(
       object, PhaseOffset{offset.phases, PhaseOffset::WHOLE_PHASE}
     );
+    if (whole_phase_work == 0.) {
+      // no work to be proportional to
+      return work + overhead / std::max(1, getNumSubphases());
+    }
     return work + overhead * ( work/whole_phase_work );
   }
 }
diff --git a/src/vt/vrt/collection/balance/model/weighted_messages.cc b/src/vt/vrt/collection/balance/model/weighted_messages.cc
index ee797fb..1fd3fdb 100644
--- a/src/vt/vrt/collection/balance/model/weighted_messages.cc
+++ b/src/vt/vrt/collection/balance/model/weighted_messages.cc
@@ -43,6 +43,8 @@
 
 #include "vt/vrt/collection/balance/model/weighted_messages.h"
 
+#include <algorithm>
+
 namespace vt { namespace vrt { namespace collection { namespace balance {
 
 LoadType
@@ -80,6 +82,10 @@ WeightedMessages::getModeledComm(ElementIDStruct object, PhaseOffset when) const
     auto whole_phase_load = ComposedModel::getModeledLoad(
       object, PhaseOffset{when.phases, PhaseOffset::WHOLE_PHASE});
 
+    if (whole_phase_load == 0.) {
+      // no work to be proportional to
+      return modeled_comm / std::max(1, getNumSubphases());
+    }
     return modeled_comm * load / whole_phase_load;
   }
 }
-- 
2.43.0


From 9aa3187664e6549e88174378dcec76fb735b300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 51/59] fix: linear load model aborted on a single past phase

---
 src/vt/vrt/collection/balance/model/linear_model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/linear_model.cc b/src/vt/vrt/collection/balance/model/linear_model.cc
index 2ce9b64..32bba84 100644
--- a/src/vt/vrt/collection/balance/model/linear_model.cc
+++ b/src/vt/vrt/collection/balance/model/linear_model.cc
@@ -68,6 +68,10 @@ LoadType LinearModel::getModeledLoad(ElementIDStruct object, PhaseOffset when) c
     y.emplace_back(ComposedModel::getModeledLoad(object, past_phase));
   }
 
+  // No line can be fitted through a single point: predict that it persists
+  if (y.size() == 1)
+    return y.front();
+
   // should we re-create this every time?
   LinearRegression regression{x, y};
   return regression.predict(when.phases);
-- 
2.43.0


From 62e478c27cb9202788b672333004ecf6e7610915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 52/59] fix: PerCollection ignored the communication of the
 models of collections

---
 src/vt/vrt/collection/balance/model/per_collection.cc | 11 +++++++++++
 src/vt/vrt/collection/balance/model/per_collection.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/per_collection.cc b/src/vt/vrt/collection/balance/model/per_collection.cc
index e0ce53b..1b82080 100644
--- a/src/vt/vrt/collection/balance/model/per_collection.cc
+++ b/src/vt/vrt/collection/balance/model/per_collection.cc
@@ -80,6 +80,17 @@ PerCollection::getModeledLoad(ElementIDStruct object, PhaseOffset when) const {
   return ComposedModel::getModeledLoad(object, when);
 }
 
+LoadType
+PerCollection::getModeledComm(ElementIDStruct object, PhaseOffset when) const {
+  // See if some specific model has been given for the object in question
+  auto mi = models_.find(theNodeLBData()->getCollectionProxyForElement(object));
+  if (mi != models_.end())
+    return mi->second->getModeledComm(object, when);
+
+  // Otherwise, default to the given base model
+  return ComposedModel::getModeledComm(object, when);
+}
+
 bool PerCollection::hasRawLoad() const {
   // Only return true if all possible paths lead to true
   bool has_raw_load = true;
diff --git a/src/vt/vrt/collection/balance/model/per_collection.h b/src/vt/vrt/collection/balance/model/per_collection.h
index f32e698..1e1136b 100644
--- a/src/vt/vrt/collection/balance/model/per_collection.h
+++ b/src/vt/vrt/collection/balance/model/per_collection.h
@@ -80,6 +80,7 @@ struct PerCollection : public ComposedModel
   void updateLoads(PhaseType last_completed_phase) override;
 
   LoadType getModeledLoad(ElementIDStruct object, PhaseOffset when) const override;
+  LoadType getModeledComm(ElementIDStruct object, PhaseOffset when) const override;
   bool hasRawLoad() const override;
   LoadType getRawLoad(ElementIDStruct object, PhaseOffset when) const override;
   bool hasUserData() const override;
-- 
2.43.0


From 1cde36bce1e4d44d3fa47afb24c85126cf9edc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:49 +0000
Subject: [PATCH 53/59] fix: listeners were not told that a single element was
 destroyed

---
 src/vt/vrt/collection/manager.impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 37bbb5e..a4989cd 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1758,6 +1758,9 @@ void CollectionManager::destroyElm(
       theMsg()->pushEpoch(modify_epoch);
       auto elm = theCollection()->findElmHolder<IndexType>(untyped_proxy);
       if (elm->exists(idx)) {
+        elm->applyListeners(
+          listener::ElementEventEnum::ElementDestroyed, idx, home_node
+        );
         elm->remove(idx);
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
-- 
2.43.0


From 77eb39874cdac9d3fc7bb65149e87b5556757c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:49 +0000
Subject: [PATCH 54/59] fix: a chain without any step aborted when its element
 left

---
 src/vt/messaging/dependent_send_chain.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/dependent_send_chain.h b/src/vt/messaging/dependent_send_chain.h
index 92b1d68..e50e37e 100644
--- a/src/vt/messaging/dependent_send_chain.h
+++ b/src/vt/messaging/dependent_send_chain.h
@@ -181,7 +181,9 @@ class DependentSendChain final {
    * \return whether the chain has terminated
    */
   bool isTerminated() {
-    return theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
+    // A chain that never had a step has nothing to wait for
+    return last_epoch_ == no_epoch or
+      theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
   }
 
   /**
-- 
2.43.0


From 49cd518b79fe4c8bc9fd327622bb6da3b141b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:10 +0000
Subject: [PATCH 55/59] fix: completion of an asynchronous operation used the
 holder after its continuation grew it

---
 src/vt/messaging/request_holder.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/request_holder.h b/src/vt/messaging/request_holder.h
index 1948bbe..c8ab7a1 100644
--- a/src/vt/messaging/request_holder.h
+++ b/src/vt/messaging/request_holder.h
@@ -117,15 +117,18 @@ struct RequestHolder {
         continue;
       }
 
-      c(&e);
-      progress_made = true;
-      e.valid = false;
+      // Remove the element before invoking the callable, which may insert
+      // further elements (and thereby invalidate the reference)
+      T completed{std::move(e)};
 
       if (i < holder_.size() - 1) {
         holder_[i] = std::move(holder_.back());
       }
 
       holder_.pop_back();
+
+      c(&completed);
+      progress_made = true;
     }
 
 #   if vt_check_enabled(trace_enabled)
-- 
2.43.0


From f1671aeda388c6e1d0754d54498de008ffb486c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:50 +0000
Subject: [PATCH 56/59] fix: the epoch of a group broadcast ended before a
 member that was not ready had forwarded it

---
 src/vt/group/group_manager.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 6b7dc37..1890c2e 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -52,6 +52,7 @@
 #include "vt/group/global/group_default_msg.h"
 #include "vt/scheduler/scheduler.h"
 #include "vt/collective/collective_alg.h"
+#include "vt/termination/termination.h"
 
 #include <mpi.h>
 
@@ -399,11 +400,24 @@ EventType GroupManager::sendGroupCollective(
       return no_event;
     }
   } else if (in_group && !group_ready) {
+    // The message has not been forwarded yet: hold its epoch until it is
+    auto const is_term = envelopeIsTerm(msg->env);
+    auto const epoch = envelopeIsEpochType(msg->env) ?
+      envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+
+    if (not is_term) {
+      theTerm()->produce(epoch);
+    }
+
     local_collective_group_info_.find(group)->second->readyAction(
-      [base,from,is_root]{
+      [base,from,is_root,is_term,epoch]{
         // Do not capture deliver, it's a pointer to stack memory
         bool dummy;
         theGroup()->sendGroupCollective(base,from,is_root,&dummy);
+
+        if (not is_term) {
+          theTerm()->consume(epoch);
+        }
       }
     );
     *deliver = true;
-- 
2.43.0


From 225c73996f9df231c71d25aa4a31350992e3e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:12 +0000
Subject: [PATCH 57/59] fix: an action attached to an event of another rank
 used its message after it was freed

---
 src/vt/event/event.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index f7d32c3..bc36a71 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -150,18 +150,22 @@ EventType AsyncEvent::attachAction(EventType const& event, ActionType callable)
 }
 
 /*static*/ void AsyncEvent::checkEventFinished(EventCheckFinishedMsg* msg) {
-  auto const& event = msg->event_;
+  auto const event = msg->event_;
   auto const& node = theEvent()->getOwningNode(event);
 
   vtAssert(
     node == theContext()->getNode(), "Node must be identical"
   );
 
-  auto send_back_fun = [=]{
-    auto send_back = theEvent()->getOwningNode(msg->event_back_);
-    vtAssertExpr(send_back == msg->sent_from_node_);
+  // Copy what is needed: the message is gone when the event is not ready yet
+  auto const event_back = msg->event_back_;
+  [[maybe_unused]] auto const sent_from_node = msg->sent_from_node_;
 
-    auto msg_send = makeMessage<EventFinishedMsg>(event, msg->event_back_);
+  auto send_back_fun = [event, event_back, sent_from_node]{
+    auto send_back = theEvent()->getOwningNode(event_back);
+    vtAssertExpr(send_back == sent_from_node);
+
+    auto msg_send = makeMessage<EventFinishedMsg>(event, event_back);
     theMsg()->sendMsg<eventFinished>(
       send_back, msg_send
     );
-- 
2.43.0


From ad8e63374ac1800dc6f963375d76637d4a555ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:12 +0000
Subject: [PATCH 58/59] fix: an action attached to a normal event by its own
 action never ran

---
 src/vt/event/event_record.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/event/event_record.cc b/src/vt/event/event_record.cc
index 5840b42..d66bfdd 100644
--- a/src/vt/event/event_record.cc
+++ b/src/vt/event/event_record.cc
@@ -109,7 +109,7 @@ bool EventRecord::testMPIEventReady() {
 }
 
 bool EventRecord::testNormalEventReady() {
-  return false;
+  return ready;
 }
 
 bool EventRecord::testParentEventReady() {
-- 
2.43.0


From 07342cbb361565b89c73ceef4b58dac26870f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:13 +0000
Subject: [PATCH 59/59] fix: a replay that starts beyond the recorded phases
 lost track of where the objects are

With a phase modulus the loads of phase p are those recorded for phase p
modulo the number of recorded phases, but the objects that are here at the
beginning were looked up under the initial phase itself: with an initial phase
beyond the recorded ones no rank had any object, and when the load balancer
did not run in that phase the loads were not moved to where the objects are in
the phases that follow.
---
 src/vt/vrt/collection/balance/workload_replay.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/workload_replay.cc b/src/vt/vrt/collection/balance/workload_replay.cc
index 975e3ae..959e617 100644
--- a/src/vt/vrt/collection/balance/workload_replay.cc
+++ b/src/vt/vrt/collection/balance/workload_replay.cc
@@ -87,8 +87,10 @@ void replayWorkloads(
     &(workloads->user_defined_lb_info_)
   );
   // point the load model at the workloads for the relevant phase
+  PhaseType const initial_input_phase =
+    phase_mod == 0 ? initial_phase : initial_phase % phase_mod;
   runInEpochCollective("WorkloadReplayDriver -> updateLoads", [=] {
-    base_load_model->updateLoads(initial_phase);
+    base_load_model->updateLoads(initial_input_phase);
   });
 
   // allow remembering what objects are here after the load balancer migrates
-- 
2.43.0

