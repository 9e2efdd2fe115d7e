From c3ffac45014eec883f4a58ff0d1d75af24a70fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 01/34] fix: make a repeated commit of a replicated ticket a
 no-op

The staged updates are moved into the replicated state by the first commit but
stay in the ticket, so a repeated commit command (after a fail-over or a retry)
overwrote the values, including those written by later transactions, with
moved-from ones.
---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..3081d33 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -35,6 +35,9 @@ namespace cbdc::parsec::runtime_locking_shard {
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
             }
+            // The updates are applied once only: a repeated commit must not
+            // overwrite later values, nor write the moved-from ones.
+            t.m_state_update.clear();
             return std::nullopt;
         }();
         result_callback(ret);
-- 
2.43.0


From 67da35eaf6deeb832500e7357bfe595e9c5ff66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 02/34] fix: broker recovery may be repeated and survives
 immediate shard replies

---
 src/parsec/broker/impl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..eb737af 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -883,6 +883,10 @@ namespace cbdc::parsec::broker {
         // Do not allow recovery when tickets are in-flight
         auto maybe_tickets = [&]() {
             std::unique_lock l(m_mut);
+            if(m_tickets.empty()) {
+                // Forget the answers to any previous recovery request
+                m_recovery_tickets.clear();
+            }
             return !m_tickets.empty();
         }();
         if(maybe_tickets) {
@@ -972,7 +976,9 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // Callbacks could finish, and so erase, tickets during the loop
+        const auto tickets = m_tickets;
+        for(const auto& [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
-- 
2.43.0


From 3496d4c1936c3c6ad9ad0751a3ab3f384a767b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 03/34] fix: a broker stops asking shards once a ticket has
 committed

---
 src/parsec/broker/impl.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index eb737af..29ddf7b 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -283,8 +283,9 @@ namespace cbdc::parsec::broker {
                          const std::shared_ptr<state>& ts)
         -> std::optional<error_code> {
         for(auto& shard : ts->m_shard_states) {
-            if(ts->m_state == ticket_state::aborted) {
-                m_log->trace("Broker aborted during commit for",
+            // The ticket could have committed, and finished, meanwhile
+            if(ts->m_state != ticket_state::prepared) {
+                m_log->trace("Broker stopped committing during commit for",
                              ticket_number);
                 break;
             }
@@ -450,9 +451,10 @@ namespace cbdc::parsec::broker {
         for(auto& shard : t_state->m_shard_states) {
             // Shard states might get nuked in this loop if there's a
             // rollback Before iterating, make sure we're still good to
-            // do more prepares Only nuke shard states on restart
-            if(t_state->m_state == ticket_state::aborted) {
-                m_log->trace("Broker aborted during prepare for",
+            // do more prepares Only nuke shard states on restart. Nothing is
+            // left to prepare either once the ticket has prepared
+            if(t_state->m_state != ticket_state::begun) {
+                m_log->trace("Broker stopped preparing during prepare for",
                              ticket_number);
                 break;
             }
-- 
2.43.0


From 36ce437e8ed36d1d13528f25e7b580d9cc8faf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 04/34] fix: answer commit and finish of a transaction that
 touched no shard

---
 src/parsec/broker/impl.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 29ddf7b..3a5e620 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -378,6 +378,7 @@ namespace cbdc::parsec::broker {
                       state_update_type state_updates,
                       commit_callback_type result_callback) -> bool {
         m_log->trace(this, "Broker got commit request for", ticket_number);
+        auto done = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
             auto it = m_tickets.find(ticket_number);
@@ -423,6 +424,13 @@ namespace cbdc::parsec::broker {
                 }
             }
 
+            if(t_state->m_shard_states.empty()) {
+                // No shard took part, so there is nothing to wait for
+                t_state->m_state = ticket_state::committed;
+                done = true;
+                return std::nullopt;
+            }
+
             if(t_state->m_state == ticket_state::prepared) {
                 return do_commit(result_callback, ticket_number, t_state);
             }
@@ -438,6 +446,8 @@ namespace cbdc::parsec::broker {
                 "Broker calling commit callback with error from commit for",
                 ticket_number);
             result_callback(maybe_error.value());
+        } else if(done) {
+            result_callback(std::nullopt);
         }
 
         return true;
@@ -526,6 +536,12 @@ namespace cbdc::parsec::broker {
                     return std::nullopt;
             }
 
+            if(t_state->m_shard_states.empty()) {
+                m_tickets.erase(it);
+                done = true;
+                return std::nullopt;
+            }
+
             for(auto& shard : t_state->m_shard_states) {
                 m_log->trace(this,
                              "Broker requesting finish on",
-- 
2.43.0


From 7833d347a8a7d09b1db2a6b98896f1a5818ff614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 05/34] fix: applying an aborted transaction releases only its
 own locks

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..5c1367e 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        const auto& locked = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -166,6 +167,11 @@ namespace cbdc::locking_shard {
                     m_uhs.emplace(uhs_id);
                 }
             }
+            if(!locked[i]) {
+                // This TX never acquired its inputs. If any of them are
+                // locked, they belong to a different TX.
+                continue;
+            }
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
                 if(hash_in_shard_range(uhs_id)) {
                     auto was_locked = m_locked.erase(uhs_id);
-- 
2.43.0


From 0db9ecfc0d71badca98c92430f1348b1b18c3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 06/34] fix: only confirmed transactions are reported as
 completed

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 5c1367e..c753cfd 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -158,7 +158,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(hash_in_shard_range(tx.m_tx.m_id) && complete_txs[i]) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From b9e6ab27abf832ea0b5f9514f039a32736bcd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 07/34] fix: a lock request repeated after apply locks nothing
 again

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 12 ++++++++++--
 src/uhs/twophase/locking_shard/locking_shard.hpp |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index c753cfd..b1b522c 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -88,6 +88,13 @@ namespace cbdc::locking_shard {
             return prepared_dtx_it->second.m_results;
         }
 
+        // A lock request repeated after the dtx was applied must not lock
+        // anything again as no further apply is going to release it.
+        auto applied_dtx_it = m_applied_dtxs.find(dtx_id);
+        if(applied_dtx_it != m_applied_dtxs.end()) {
+            return applied_dtx_it->second;
+        }
+
         auto ret = std::vector<bool>();
         ret.reserve(txs.size());
         for(auto&& tx : txs) {
@@ -182,8 +189,9 @@ namespace cbdc::locking_shard {
             }
         }
 
-        m_prepared_dtxs.erase(dtx_id);
-        m_applied_dtxs.insert(dtx_id);
+        m_applied_dtxs.emplace(dtx_id,
+                               std::move(prepared_dtx_it->second.m_results));
+        m_prepared_dtxs.erase(prepared_dtx_it);
         return true;
     }
 
diff --git a/src/uhs/twophase/locking_shard/locking_shard.hpp b/src/uhs/twophase/locking_shard/locking_shard.hpp
index 242a84a..ccc42f6 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.hpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.hpp
@@ -140,7 +140,9 @@ namespace cbdc::locking_shard {
         std::unordered_set<hash_t, hashing::null> m_locked;
         std::unordered_map<hash_t, prepared_dtx, hashing::null>
             m_prepared_dtxs;
-        std::unordered_set<hash_t, hashing::null> m_applied_dtxs;
+        /// Applied dtxs mapped to the results of locking their transactions.
+        std::unordered_map<hash_t, std::vector<bool>, hashing::null>
+            m_applied_dtxs;
         cbdc::cache_set<hash_t, hashing::null> m_completed_txs;
         config::options m_opts;
     };
-- 
2.43.0


From d3033bc0075d5ec2533fbb879aa37c44ac6e83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 08/34] fix: a coordinator recovering a discard tells the
 shards to discard

---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 ++++-
 src/uhs/twophase/coordinator/distributed_tx.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..9cab328 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -187,7 +187,7 @@ namespace cbdc::coordinator {
         }
         auto futures = std::vector<std::future<bool>>();
         for(size_t i{0}; i < m_shards.size(); i++) {
-            if(m_tx_idxs[i].empty()) {
+            if(m_tx_idxs[i].empty() && !m_discard_all) {
                 continue;
             }
             const auto& shard = m_shards[i];
@@ -253,6 +253,9 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        // It is no longer known which shards took part. Discarding a dtx a
+        // shard has not seen has no effect.
+        m_discard_all = true;
     }
 
     auto distributed_tx::size() const -> size_t {
diff --git a/src/uhs/twophase/coordinator/distributed_tx.hpp b/src/uhs/twophase/coordinator/distributed_tx.hpp
index 83b9571..b40e081 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.hpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.hpp
@@ -162,6 +162,7 @@ namespace cbdc::coordinator {
         discard_cb_t m_discard_cb;
         done_cb_t m_done_cb;
         dtx_state m_state{dtx_state::start};
+        bool m_discard_all{false};
         std::vector<bool> m_complete_txs;
         std::shared_ptr<logging::log> m_logger;
     };
-- 
2.43.0


From 3a200ff4da3216fd645557f87407a500a88986da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 09/34] fix: a cache_set holds as many elements as its maximum
 size

---
 src/util/common/cache_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/common/cache_set.hpp b/src/util/common/cache_set.hpp
index 51ef4b2..338486b 100644
--- a/src/util/common/cache_set.hpp
+++ b/src/util/common/cache_set.hpp
@@ -40,7 +40,7 @@ namespace cbdc {
             auto added = m_vals.emplace(std::forward<T>(val));
             if(added.second) {
                 m_eviction_queue.push(std::ref(*added.first));
-                if(m_eviction_queue.size() >= m_max_size) {
+                if(m_eviction_queue.size() > m_max_size) {
                     auto& v = m_eviction_queue.front();
                     m_vals.erase(v);
                     m_eviction_queue.pop();
-- 
2.43.0


From daacab4b17fea959a468fb3f4aa689e6d2ce226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 10/34] fix: stopping a coordinator wakes a handler waiting for
 space in the batch

---
 src/uhs/twophase/coordinator/controller.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 5ddfc5d..f4f789e 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -182,13 +182,14 @@ namespace cbdc::coordinator {
     void controller::stop() {
         // Set the running flag to false, close the network and notify the
         // batch trigger condition variable so the threads that check them will
-        // end and we can join the threads below.
+        // end and we can join the threads below. The message handler might be
+        // waiting for space in the batch, so wake it up before stopping it.
         {
             std::lock_guard<std::mutex> l(m_batch_mut);
             m_running = false;
         }
+        m_batch_cv.notify_all();
         m_rpc_server.reset();
-        m_batch_cv.notify_one();
 
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
-- 
2.43.0


From adc48dd10d16b116118fc160d010505b97daad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 11/34] fix: atomizer aggregation ignores attestations made at
 height 0

The oldest attestation height used 0 as 'not set yet', so an attestation
for height 0 was forgotten when another one followed, and the spent
outputs between the two heights were not checked.
---
 src/uhs/atomizer/atomizer/atomizer_raft.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer_raft.cpp b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
index 24681f2..bd0c510 100644
--- a/src/uhs/atomizer/atomizer/atomizer_raft.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
@@ -105,13 +105,13 @@ namespace cbdc::atomizer {
         auto& tx = maybe_tx.value();
         auto agg = aggregate_tx_notification();
         agg.m_tx = std::move(tx.key());
-        uint64_t oldest{0};
+        std::optional<uint64_t> oldest;
         for(const auto& att : tx.mapped()) {
-            if(oldest == 0 || att.second < oldest) {
+            if(!oldest.has_value() || att.second < oldest.value()) {
                 oldest = att.second;
             }
         }
-        agg.m_oldest_attestation = oldest;
+        agg.m_oldest_attestation = oldest.value_or(0);
 
         {
             std::lock_guard<std::mutex> l(m_complete_mut);
-- 
2.43.0


From cd25b4d6526f299ab93aaafe5c1e41c5b437b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 12/34] fix: atomizer aggregation keeps an outdated attestation

A newer attestation for the same input was not stored, because the set of
attestations compares only the input index and insert does not replace.
---
 src/uhs/atomizer/atomizer/atomizer_raft.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uhs/atomizer/atomizer/atomizer_raft.cpp b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
index bd0c510..235a4f7 100644
--- a/src/uhs/atomizer/atomizer/atomizer_raft.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
@@ -72,6 +72,9 @@ namespace cbdc::atomizer {
                     if((n_it != it->second.end()
                         && n_it->second < notif.m_block_height)
                        || n_it == it->second.end()) {
+                        // The set compares only the input index, replace the
+                        // older attestation.
+                        it->second.erase(p);
                         it->second.insert(std::move(p));
                     }
                 }
-- 
2.43.0


From db831f154d95554b87d9ac46dde3ade27546d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 13/34] fix: atomizer reads past its caches for transactions
 without inputs

Such transactions are exempt from the check that the notification is
within the spent output cache, but their height was used as an index.
---
 src/uhs/atomizer/atomizer/atomizer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer.cpp b/src/uhs/atomizer/atomizer/atomizer.cpp
index cc83610..9141544 100644
--- a/src/uhs/atomizer/atomizer/atomizer.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer.cpp
@@ -10,6 +10,8 @@
 #include "util/serialization/buffer_serializer.hpp"
 #include "util/serialization/format.hpp"
 
+#include <algorithm>
+
 namespace cbdc::atomizer {
     auto atomizer::make_block()
         -> std::pair<block, std::vector<cbdc::watchtower::tx_error>> {
@@ -45,13 +47,16 @@ namespace cbdc::atomizer {
                           transaction::compact_tx tx,
                           std::unordered_set<uint32_t> attestations)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(block_height);
+        auto height_offset = get_notification_offset(block_height);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
             return offset_err;
         }
 
+        // A transaction without inputs may be older than the cache.
+        height_offset = std::min<uint64_t>(height_offset, m_spent_cache_depth);
+
         // Search the incomplete transactions vector for this notification's
         // block height offset. Note, we might be able to defer this insertion
         // until after we've checked if the transaction is complete.
@@ -141,7 +146,9 @@ namespace cbdc::atomizer {
             return offset_err;
         }
 
-        auto cache_check_range = height_offset;
+        // A transaction without inputs may be older than the cache.
+        auto cache_check_range
+            = std::min<uint64_t>(height_offset, m_spent_cache_depth);
 
         auto err_set = check_stxo_cache(tx, cache_check_range);
         if(err_set) {
-- 
2.43.0


From 1084266c96edc8ac57bc1697f7114796b6af9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 14/34] fix: watchtower gives two contradicting answers for one
 output

When an error was remembered for a transaction that is in a block (a
repeated or an earlier, premature submission) an output got both the error
and the confirmed state.
---
 src/uhs/atomizer/watchtower/watchtower.cpp | 43 ++++++++++++----------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/watchtower.cpp b/src/uhs/atomizer/watchtower/watchtower.cpp
index 06a12af..e92c190 100644
--- a/src/uhs/atomizer/watchtower/watchtower.cpp
+++ b/src/uhs/atomizer/watchtower/watchtower.cpp
@@ -66,7 +66,31 @@ namespace cbdc::watchtower {
         std::vector<status_update_state> states;
         states.reserve(uhs_ids.size());
         for(const auto& uhs_id : uhs_ids) {
+            // A transaction in a block is confirmed, whatever errors were
+            // reported for earlier or repeated attempts.
             auto found_status = false;
+            if(auto spent = m_bc.check_spent(uhs_id)) {
+                auto [height, s_tx_id] = spent.value();
+                if(s_tx_id == tx_id) {
+                    states.emplace_back(
+                        status_update_state{search_status::spent,
+                                            height,
+                                            uhs_id});
+                    found_status = true;
+                }
+            } else if(auto unspent = m_bc.check_unspent(uhs_id)) {
+                auto [height, us_tx_id] = unspent.value();
+                if(us_tx_id == tx_id) {
+                    states.emplace_back(
+                        status_update_state{search_status::unspent,
+                                            height,
+                                            uhs_id});
+                    found_status = true;
+                }
+            }
+            if(found_status) {
+                continue;
+            }
             if(internal_err) {
                 states.emplace_back(
                     status_update_state{search_status::internal_error,
@@ -87,25 +111,6 @@ namespace cbdc::watchtower {
                 }
                 found_status = true;
             }
-            if(auto spent = m_bc.check_spent(uhs_id)) {
-                auto [height, s_tx_id] = spent.value();
-                if(s_tx_id == tx_id) {
-                    states.emplace_back(
-                        status_update_state{search_status::spent,
-                                            height,
-                                            uhs_id});
-                    found_status = true;
-                }
-            } else if(auto unspent = m_bc.check_unspent(uhs_id)) {
-                auto [height, us_tx_id] = unspent.value();
-                if(us_tx_id == tx_id) {
-                    states.emplace_back(
-                        status_update_state{search_status::unspent,
-                                            height,
-                                            uhs_id});
-                    found_status = true;
-                }
-            }
             if(!found_status) {
                 states.emplace_back(
                     status_update_state{search_status::no_history,
-- 
2.43.0


From 6dcb396cd308a480ec9a51bc7fbca882acec8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 15/34] fix: watchtower stops taking blocks after an old or
 repeated one

The catch-up loop waited for the archiver to reach the height before the
old block, which never happens: it went on past it for ever.
---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 7ffe9a2..f23bf14 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -104,6 +104,10 @@ auto cbdc::watchtower::controller::atomizer_handler(
                     "with",
                     blk.m_transactions.size(),
                     "transactions.");
+    if(blk.m_height <= m_last_blk_height) {
+        m_logger->warn("Ignoring old block. Last block:", m_last_blk_height);
+        return std::nullopt;
+    }
     if(blk.m_height != (m_last_blk_height + 1)) {
         m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
         while(blk.m_height != (m_last_blk_height + 1)) {
-- 
2.43.0


From 56c8dd57ffe71aebe2003422ff1427d5df3ae9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 16/34] fix: watchtower forgets an error when an older one for
 the same key leaves

Evicting the oldest error erased the entries of newer errors for the same
transaction or UHS ID.
---
 src/uhs/atomizer/watchtower/error_cache.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..f7d2de2 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -17,19 +17,26 @@ namespace cbdc::watchtower {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
                 auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                // A newer error for the same transaction or UHS ID is kept.
+                auto erase_old = [&](auto& errs_map, const hash_t& key) {
+                    auto it = errs_map.find(key);
+                    if(it != errs_map.end() && it->second == old_err) {
+                        errs_map.erase(it);
+                    }
+                };
+                erase_old(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       erase_old(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       erase_old(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +49,17 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From f3d5d6de83eab2631dbd50e4f1660e35c4405bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 17/34] fix: archiver asks again for a missing block whose
 successors are deferred

A block that can't be stored yet only triggered a request for its
predecessor, and none at all if that was already deferred. Once a request
or its response was lost, the archiver deferred all later blocks and never
asked for the missing one again.
---
 src/uhs/atomizer/archiver/controller.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/uhs/atomizer/archiver/controller.cpp b/src/uhs/atomizer/archiver/controller.cpp
index 7fc850c..f18f199 100644
--- a/src/uhs/atomizer/archiver/controller.cpp
+++ b/src/uhs/atomizer/archiver/controller.cpp
@@ -197,12 +197,16 @@ namespace cbdc::archiver {
             }
 
             if(blk.m_height != m_best_height + 1) {
-                // Not contiguous, check prev block isn't deferred already
-                auto it = m_deferred.find(blk.m_height - 1);
-                if(it == m_deferred.end()) {
-                    // Request previous block from atomizer cluster
-                    request_block(blk.m_height - 1);
+                // Not contiguous, find the latest previous block that isn't
+                // deferred already. There is at least one, as the block after
+                // the best block would not have been deferred.
+                auto missing = blk.m_height - 1;
+                while(m_deferred.find(missing) != m_deferred.end()) {
+                    missing--;
                 }
+                // Request missing block from atomizer cluster. An earlier
+                // request for it (or its response) might have been lost.
+                request_block(missing);
                 m_deferred.emplace(blk.m_height, blk);
                 return;
             }
-- 
2.43.0


From 19ff41975ee2a425d3d7091ab4f00358df28bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 18/34] fix: agent aborts when exec() is called again while its
 function is retrieved

---
 src/parsec/agent/impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 7fd050c..774d075 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -603,6 +603,7 @@ namespace cbdc::parsec::agent {
                || m_state == state::commit_error
                || m_state == state::function_get_failed
                || m_state == state::function_get_error
+               || m_state == state::function_get_sent
                || m_state == state::function_started
                || m_state == state::rollback_failed);
         assert(m_ticket_number.has_value());
-- 
2.43.0


From 045125ab4ccf91ada6884f01def69664255ad7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 19/34] fix: agent process dies when no ticket number can be
 assigned

---
 src/parsec/agent/impl.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 774d075..0199c2e 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -544,9 +544,11 @@ namespace cbdc::parsec::agent {
                 break;
         }
         get_result_callback()(m_result.value());
-        m_log->trace(this,
-                     "Agent handled result for",
-                     m_ticket_number.value());
+        if(m_ticket_number.has_value()) {
+            m_log->trace(this,
+                         "Agent handled result for",
+                         m_ticket_number.value());
+        }
     }
 
     void impl::do_finish() {
@@ -657,7 +659,9 @@ namespace cbdc::parsec::agent {
 
     impl::~impl() {
         std::unique_lock l(m_mut);
-        if(m_state != state::finish_complete) {
+        // Without a ticket number there is nothing to finish
+        if(m_state != state::finish_complete
+           && m_state != state::begin_failed) {
             m_log->fatal(
                 this,
                 "Agent state wasn't finished at destruction, state was:",
-- 
2.43.0


From 1ff823aeeee7635752869fd90f31c02df9c80b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 20/34] fix: agent reports a committed execution as failed
 after a retried finish

---
 src/parsec/agent/impl.cpp | 28 ++++++++++++++--------------
 src/parsec/agent/impl.hpp |  4 ++++
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 0199c2e..60b9143 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -524,12 +524,11 @@ namespace cbdc::parsec::agent {
                 return;
 
             case state::finish_failed:
-                // Committed but transient error running finish, cannot
-                // rollback, need to retry finish
-                [[fallthrough]];
+                m_log->fatal("Result reported in finish_failed state");
+                // System terminated by fatal()
             case state::rollback_failed:
-                // Need to retry rollback
-                break;
+                m_log->fatal("Result reported in rollback_failed state");
+                // System terminated by fatal()
 
             // Failure due to permanent error, abort completely
             case state::function_get_error:
@@ -543,7 +542,12 @@ namespace cbdc::parsec::agent {
                 m_log->debug(this, "Agent finished", m_ticket_number.value());
                 break;
         }
-        get_result_callback()(m_result.value());
+        report_result(m_result.value());
+    }
+
+    void impl::report_result(exec_return_type res) {
+        std::unique_lock l(m_mut);
+        get_result_callback()(std::move(res));
         if(m_ticket_number.has_value()) {
             m_log->trace(this,
                          "Agent handled result for",
@@ -569,8 +573,7 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::finish_failed;
             m_log->error("Error contacting broker for finish");
-            m_result = error_code::broker_unreachable;
-            do_result();
+            report_result(error_code::broker_unreachable);
         }
     }
 
@@ -585,8 +588,7 @@ namespace cbdc::parsec::agent {
             m_state = state::finish_failed;
             m_log->error("Broker error for finish for",
                          m_ticket_number.value());
-            m_result = error_code::finish_error;
-            do_result();
+            report_result(error_code::finish_error);
         } else {
             m_state = state::finish_complete;
             m_log->trace(this,
@@ -620,8 +622,7 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::rollback_failed;
             m_log->error("Error contacting broker for rollback");
-            m_result = error_code::broker_unreachable;
-            do_result();
+            report_result(error_code::broker_unreachable);
         }
     }
 
@@ -634,9 +635,8 @@ namespace cbdc::parsec::agent {
         }
         if(rollback_res.has_value()) {
             m_state = state::rollback_failed;
-            m_result = error_code::rollback_error;
             m_log->error("Broker error rolling back", m_ticket_number.value());
-            do_result();
+            report_result(error_code::rollback_error);
             return;
         }
 
diff --git a/src/parsec/agent/impl.hpp b/src/parsec/agent/impl.hpp
index 8ee71ec..49bd9c6 100644
--- a/src/parsec/agent/impl.hpp
+++ b/src/parsec/agent/impl.hpp
@@ -137,6 +137,10 @@ namespace cbdc::parsec::agent {
 
         void do_result();
 
+        /// Calls the result callback. Used directly for errors which leave
+        /// the outcome of the execution open, so that they do not replace it.
+        void report_result(exec_return_type res);
+
         void do_finish();
 
         void do_runner(broker::value_type v);
-- 
2.43.0


From 568be41f3f1d19b34812e6913d232e958a89fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 21/34] fix: Lua contract returning a table with number keys
 aborts the agent

---
 src/parsec/agent/runners/lua/impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsec/agent/runners/lua/impl.cpp b/src/parsec/agent/runners/lua/impl.cpp
index 4c79dc1..158bbce 100644
--- a/src/parsec/agent/runners/lua/impl.cpp
+++ b/src/parsec/agent/runners/lua/impl.cpp
@@ -102,6 +102,12 @@ namespace cbdc::parsec::agent::runner {
 
         lua_pushnil(m_state.get());
         while(lua_next(m_state.get(), -2) != 0) {
+            // lua_next needs the key as it is, a number must not be converted
+            if(lua_type(m_state.get(), -2) != LUA_TSTRING) {
+                m_log->error("Result key is not a string");
+                m_result_callback(error_code::result_key_type);
+                return;
+            }
             auto key_buf = get_stack_string(-2);
             if(!key_buf.has_value()) {
                 m_log->error("Result key is not a string");
-- 
2.43.0


From 34d0cb88851ebada79e5bd7827d4aa776a283ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 22/34] fix: a message with a wrong buffer length aborts the
 receiver

---
 src/util/serialization/format.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..dd6b63e 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -29,9 +29,22 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+
+        // Grow in steps, the length may be wrong
+        uint64_t allocated = 0;
+        while(allocated < sz) {
+            const auto len
+                = std::min(sz - allocated,
+                           static_cast<uint64_t>(config::maximum_reservation));
+            b.extend(len);
+            if(!deser.read(b.data_at(allocated), len)) {
+                return deser;
+            }
+            allocated += len;
+        }
         return deser;
     }
 }
-- 
2.43.0


From d97f2cd6b248217bf90973e63d1f0f716b4d172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 23/34] fix: a message with an unknown variant index aborts the
 receiver

---
 src/util/raft/serialization.cpp              |  4 ++++
 src/util/raft/serialization.hpp              |  4 ++++
 src/util/serialization/buffer_serializer.cpp |  4 ++++
 src/util/serialization/buffer_serializer.hpp |  4 ++++
 src/util/serialization/format.hpp            | 14 +++++++++++---
 src/util/serialization/serializer.hpp        |  4 ++++
 src/util/serialization/size_serializer.cpp   |  2 ++
 src/util/serialization/size_serializer.hpp   |  3 +++
 src/util/serialization/stream_serializer.cpp |  4 ++++
 src/util/serialization/stream_serializer.hpp |  4 ++++
 10 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index e6c23d2..4c42137 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -27,6 +27,10 @@ namespace cbdc {
         m_valid = true;
     }
 
+    void nuraft_serializer::invalidate() {
+        m_valid = false;
+    }
+
     [[nodiscard]] auto nuraft_serializer::end_of_buffer() const -> bool {
         return m_buf.pos() >= m_buf.size();
     }
diff --git a/src/util/raft/serialization.hpp b/src/util/raft/serialization.hpp
index 084ffd4..d0fa2e1 100644
--- a/src/util/raft/serialization.hpp
+++ b/src/util/raft/serialization.hpp
@@ -33,6 +33,10 @@ namespace cbdc {
         /// Resets the cursor to the start of the buffer.
         void reset() final;
 
+        /// Marks the last operation as failed, used when a value which was
+        /// read makes no sense.
+        void invalidate() final;
+
         /// Returns whether the cursor is currently at the end of the buffer.
         /// \return true if there are no more bytes to read or no more space
         ///         to write to the buffer.
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..5e54c9d 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -23,6 +23,10 @@ namespace cbdc {
         m_valid = true;
     }
 
+    void buffer_serializer::invalidate() {
+        m_valid = false;
+    }
+
     [[nodiscard]] auto buffer_serializer::end_of_buffer() const -> bool {
         return m_cursor >= m_pkt.size();
     }
diff --git a/src/util/serialization/buffer_serializer.hpp b/src/util/serialization/buffer_serializer.hpp
index 97fd435..d5b4921 100644
--- a/src/util/serialization/buffer_serializer.hpp
+++ b/src/util/serialization/buffer_serializer.hpp
@@ -28,6 +28,10 @@ namespace cbdc {
         /// Resets the cursor to the start of the buffer.
         void reset() final;
 
+        /// Marks the last operation as failed, used when a value which was
+        /// read makes no sense.
+        void invalidate() final;
+
         /// Indicates whether the cursor is at or beyond the end of the buffer.
         /// \return true if the cursor is at or beyond the end of the buffer.
         [[nodiscard]] auto end_of_buffer() const -> bool final;
diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..33fdd5e 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -388,8 +388,14 @@ namespace cbdc {
             std::variant_size_v<std::remove_reference_t<decltype(var)>> < std::
                 numeric_limits<S>::max());
         S idx{};
-        deser >> idx;
+        if(!(deser >> idx)) {
+            return deser;
+        }
         auto var_idx = static_cast<size_t>(idx);
+        if(var_idx >= sizeof...(Ts)) {
+            deser.invalidate();
+            return deser;
+        }
         var = expand_type<Ts...>(var_idx);
         std::visit(
             [&](auto&& arg) {
@@ -421,11 +427,13 @@ namespace cbdc {
             S idx{};
             deser >> idx;
             auto i = static_cast<size_t>(idx);
-            assert(i < std::variant_size_v<T>);
+            if(i >= std::variant_size_v<T>) {
+                deser.invalidate();
+                i = 0;
+            }
             static constexpr auto t = std::array{+[](serializer& d) {
                 return T{std::in_place_type<Ts>, d};
             }...};
-            // TODO: deserialization error handling for variant indexes.
             return t.at(i)(deser);
         }
     }
diff --git a/src/util/serialization/serializer.hpp b/src/util/serialization/serializer.hpp
index 54291c4..ce3f4ed 100644
--- a/src/util/serialization/serializer.hpp
+++ b/src/util/serialization/serializer.hpp
@@ -32,6 +32,10 @@ namespace cbdc {
         /// Resets the cursor to the start of the buffer.
         virtual void reset() = 0;
 
+        /// Marks the last operation as failed, used when a value which was
+        /// read makes no sense.
+        virtual void invalidate() = 0;
+
         /// Indicates whether the cursor is at or beyond the end of the buffer.
         /// \return true if the cursor is at or beyond the end of the buffer.
         [[nodiscard]] virtual auto end_of_buffer() const -> bool = 0;
diff --git a/src/util/serialization/size_serializer.cpp b/src/util/serialization/size_serializer.cpp
index 694a8cd..1e3c6c0 100644
--- a/src/util/serialization/size_serializer.cpp
+++ b/src/util/serialization/size_serializer.cpp
@@ -18,6 +18,8 @@ namespace cbdc {
         m_cursor = 0;
     }
 
+    void size_serializer::invalidate() {}
+
     [[nodiscard]] auto size_serializer::end_of_buffer() const -> bool {
         return false;
     }
diff --git a/src/util/serialization/size_serializer.hpp b/src/util/serialization/size_serializer.hpp
index 00d8046..66a0b54 100644
--- a/src/util/serialization/size_serializer.hpp
+++ b/src/util/serialization/size_serializer.hpp
@@ -29,6 +29,9 @@ namespace cbdc {
         /// Resets the size counter to zero.
         void reset() final;
 
+        /// Serialization always succeeds for size serializer, no effect.
+        void invalidate() final;
+
         /// Size serializer has no underlying buffer so this method always
         /// returns false.
         /// \return false.
diff --git a/src/util/serialization/stream_serializer.cpp b/src/util/serialization/stream_serializer.cpp
index 9a989bb..70cc12e 100644
--- a/src/util/serialization/stream_serializer.cpp
+++ b/src/util/serialization/stream_serializer.cpp
@@ -11,4 +11,8 @@ namespace cbdc {
     stream_serializer::operator bool() const {
         return m_str.good();
     }
+
+    void stream_serializer::invalidate() {
+        m_str.setstate(std::ios::failbit);
+    }
 }
diff --git a/src/util/serialization/stream_serializer.hpp b/src/util/serialization/stream_serializer.hpp
index d083406..5c521c6 100644
--- a/src/util/serialization/stream_serializer.hpp
+++ b/src/util/serialization/stream_serializer.hpp
@@ -25,6 +25,10 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Marks the last operation as failed, used when a value which was
+        /// read makes no sense.
+        void invalidate() final;
+
       private:
         std::ios& m_str;
     };
-- 
2.43.0


From c7e1fbeafb5e5337d976ea58397eca023438827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 24/34] fix: watchtower acts on messages it could not read

---
 src/uhs/atomizer/watchtower/client.cpp     | 6 ++++++
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/client.cpp b/src/uhs/atomizer/watchtower/client.cpp
index 8afee9d..357215e 100644
--- a/src/uhs/atomizer/watchtower/client.cpp
+++ b/src/uhs/atomizer/watchtower/client.cpp
@@ -27,6 +27,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
@@ -90,6 +93,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index f23bf14..ce3d737 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -146,6 +146,10 @@ auto cbdc::watchtower::controller::external_server_handler(
     cbdc::network::message_t&& pkt) -> std::optional<cbdc::buffer> {
     auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
     auto req = request(deser);
+    if(!deser) {
+        m_logger->error("Invalid request from peer", pkt.m_peer_id);
+        return std::nullopt;
+    }
     auto res_handler = overloaded{
         [&](const cbdc::watchtower::status_update_request& su_req)
             -> cbdc::buffer {
-- 
2.43.0


From 5a5dcec5d5e139fbc1a5c754a3d7d84c3765ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 25/34] fix: a failed ticket request aborts the broker or
 leaves requesters waiting

---
 src/parsec/ticket_machine/client.cpp | 37 +++++++++++++++++++---------
 src/parsec/ticket_machine/client.hpp |  2 ++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/parsec/ticket_machine/client.cpp b/src/parsec/ticket_machine/client.cpp
index 07dc623..06b0136 100644
--- a/src/parsec/ticket_machine/client.cpp
+++ b/src/parsec/ticket_machine/client.cpp
@@ -49,29 +49,37 @@ namespace cbdc::parsec::ticket_machine::rpc {
         return m_client->call(
             std::monostate{},
             [this](std::optional<get_ticket_number_return_type> res) {
-                assert(res.has_value());
+                if(!res.has_value()) {
+                    // The ticket machine couldn't process the request
+                    fail_callbacks(error_code{});
+                    return;
+                }
                 std::visit(overloaded{[&](ticket_number_range_type range) {
                                           handle_ticket_numbers(range);
                                       },
                                       [&](error_code e) {
-                                          auto callbacks
-                                              = decltype(m_callbacks)();
-                                          {
-                                              std::unique_lock ll(m_mut);
-                                              m_fetching_tickets = false;
-                                              callbacks.swap(m_callbacks);
-                                          }
-                                          while(!callbacks.empty()) {
-                                              callbacks.front()(e);
-                                              callbacks.pop();
-                                          }
+                                          fail_callbacks(e);
                                       }},
                            res.value());
             });
     }
 
+    void client::fail_callbacks(error_code err) {
+        auto callbacks = decltype(m_callbacks)();
+        {
+            std::unique_lock l(m_mut);
+            m_fetching_tickets = false;
+            callbacks.swap(m_callbacks);
+        }
+        while(!callbacks.empty()) {
+            callbacks.front()(err);
+            callbacks.pop();
+        }
+    }
+
     void client::handle_ticket_numbers(ticket_number_range_type range) {
         auto callbacks = decltype(m_callbacks)();
+        auto failed_callbacks = decltype(m_callbacks)();
         auto tickets = decltype(m_tickets)();
         {
             std::unique_lock ll(m_mut);
@@ -90,6 +98,7 @@ namespace cbdc::parsec::ticket_machine::rpc {
                 auto fetch_res = fetch_tickets();
                 if(!fetch_res) {
                     m_fetching_tickets = false;
+                    failed_callbacks.swap(m_callbacks);
                 }
             }
         }
@@ -100,5 +109,9 @@ namespace cbdc::parsec::ticket_machine::rpc {
             callbacks.pop();
             tickets.pop();
         }
+        while(!failed_callbacks.empty()) {
+            failed_callbacks.front()(error_code{});
+            failed_callbacks.pop();
+        }
     }
 }
diff --git a/src/parsec/ticket_machine/client.hpp b/src/parsec/ticket_machine/client.hpp
index 52099d5..46ed625 100644
--- a/src/parsec/ticket_machine/client.hpp
+++ b/src/parsec/ticket_machine/client.hpp
@@ -51,6 +51,8 @@ namespace cbdc::parsec::ticket_machine::rpc {
 
         auto fetch_tickets() -> bool;
 
+        void fail_callbacks(error_code err);
+
         void handle_ticket_numbers(ticket_number_range_type range);
     };
 }
-- 
2.43.0


From 39805e56fbae9edadad854ca4324055f33b0ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 26/34] fix: send transactions to the shards of all their
 inputs

The sentinel compared the ranges of the shards with the input at the index of
the shard rather than with the input in question (reading past the end of the
inputs if there were more shards), so shards of other inputs were left out.
---
 src/uhs/atomizer/sentinel/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index ac2af00..d05164e 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -192,7 +192,7 @@ namespace cbdc::sentinel {
                 if(inputs_sent.find(j) != inputs_sent.end()) {
                     continue;
                 }
-                if(!config::hash_in_shard_range(range, ctx.m_inputs[i])) {
+                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                     continue;
                 }
                 inputs_sent.insert(j);
-- 
2.43.0


From 1254922fc9896dba1e5852c5635a53d6ad50d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 27/34] fix: treat a sentinel's answer of the wrong kind as a
 failure

A response of the other alternative ended the process: std::get aborts as
exceptions are disabled.
---
 src/uhs/sentinel/client.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/uhs/sentinel/client.cpp b/src/uhs/sentinel/client.cpp
index c45eef1..382dde2 100644
--- a/src/uhs/sentinel/client.cpp
+++ b/src/uhs/sentinel/client.cpp
@@ -26,7 +26,8 @@ namespace cbdc::sentinel::rpc {
     auto client::execute_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<execute_response> {
         auto res = m_client.call(execute_request{std::move(tx)});
-        if(!res.has_value()) {
+        if(!res.has_value()
+           || !std::holds_alternative<execute_response>(res.value())) {
             return std::nullopt;
         }
         return std::get<execute_response>(res.value());
@@ -38,7 +39,8 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             execute_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
+                if(!res.has_value()
+                   || !std::holds_alternative<execute_response>(res.value())) {
                     cb(std::nullopt);
                     return;
                 }
@@ -49,7 +51,8 @@ namespace cbdc::sentinel::rpc {
     auto client::validate_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<validate_response> {
         auto res = m_client.call(validate_request{std::move(tx)});
-        if(!res.has_value()) {
+        if(!res.has_value()
+           || !std::holds_alternative<validate_response>(res.value())) {
             return std::nullopt;
         }
         return std::get<validate_response>(res.value());
@@ -61,7 +64,8 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             validate_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
+                if(!res.has_value()
+                   || !std::holds_alternative<validate_response>(res.value())) {
                     cb(std::nullopt);
                     return;
                 }
-- 
2.43.0


From 943056573fb858b03db4dd4f96c7870263c57976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 28/34] fix: drop a confirmed transaction's inputs from the
 wallet's spend queue

update_balance erased spent inputs from m_utxos_set but not from
m_spend_queue, so confirming a transaction whose inputs were in the wallet
left coins that could be spent twice (and failed the assertion).
---
 src/uhs/transaction/wallet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..bd8fe1e 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -225,9 +225,13 @@ namespace cbdc {
         }
 
         for(const auto& inp : debits) {
-            const auto erased = m_utxos_set.erase(inp) > 0;
-            if(erased) {
-                m_balance -= inp.m_prevout_data.m_value;
+            const auto it = m_utxos_set.find(inp);
+            if(it != m_utxos_set.end()) {
+                m_balance -= it->m_prevout_data.m_value;
+                m_utxos_set.erase(it);
+                m_spend_queue.remove_if([&](const transaction::input& utxo) {
+                    return utxo.m_prevout == inp.m_prevout;
+                });
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From 69367c4a476e9789e5ae6886ad38b8cf1fe8aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 29/34] fix: let a client wait for several inputs made by one
 transaction

m_pending_inputs was keyed by transaction ID, so all but the first input
imported from a transaction were dropped. It is keyed by UHS ID now.
---
 src/uhs/client/atomizer_client.cpp |  8 ++++++--
 src/uhs/client/client.cpp          | 16 ++++++++++------
 src/uhs/client/client.hpp          |  6 +++---
 src/uhs/client/twophase_client.cpp |  4 ++--
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 04274e8..78e4475 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -50,8 +50,12 @@ namespace cbdc {
                               ctx.m_uhs_outputs.end());
         }
 
-        for(const auto& [tx_id, in] : pending_inputs()) {
-            tus.insert({tx_id, {in.hash()}});
+        const auto txs = pending_txs();
+        for(const auto& [uhs_id, in] : pending_inputs()) {
+            const auto& tx_id = in.m_prevout.m_tx_id;
+            if(txs.find(tx_id) == txs.end()) {
+                tus[tx_id].push_back(in.hash());
+            }
         }
 
         cbdc::watchtower::status_update_request req{tus};
diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 4b3bc60..b3e8017 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -202,7 +202,7 @@ namespace cbdc {
 
     void client::import_send_input(const transaction::input& in) {
         if(m_wallet.is_spendable(in)) {
-            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
+            m_pending_inputs.insert({in.hash(), in});
             save();
         } else {
             m_logger->warn("Ignoring non-spendable input");
@@ -294,11 +294,15 @@ namespace cbdc {
             success = true;
         }
 
-        const auto pi_it = m_pending_inputs.find(tx_id);
-        if(pi_it != m_pending_inputs.end()) {
-            m_wallet.confirm_inputs({pi_it->second});
-            m_pending_inputs.erase(pi_it);
-            success = true;
+        for(auto pi_it = m_pending_inputs.begin();
+            pi_it != m_pending_inputs.end();) {
+            if(pi_it->second.m_prevout.m_tx_id == tx_id) {
+                m_wallet.confirm_inputs({pi_it->second});
+                pi_it = m_pending_inputs.erase(pi_it);
+                success = true;
+            } else {
+                pi_it++;
+            }
         }
 
         save();
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index ae3cb6d..368207b 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -266,7 +266,7 @@ namespace cbdc {
         /// Returns the current set of pending inputs imported into this client
         /// via the \ref import_send_input method which the system has yet to
         /// confirm.
-        /// \return a map of transaction ID to pending input.
+        /// \return a map of UHS ID to pending input.
         [[nodiscard]] auto pending_inputs() const
             -> std::unordered_map<hash_t, transaction::input, hashing::null>;
 
@@ -287,8 +287,8 @@ namespace cbdc {
         std::unordered_map<hash_t, transaction::input, hashing::null>
             m_pending_spend;
 
-        /// List of pending inputs added by client::import_send_input, indexed
-        /// by the Tx ID of the transaction that created them.
+        /// List of pending inputs added by client::import_send_input, keyed by
+        /// UHS ID, as a transaction may create several of them.
         std::unordered_map<hash_t, transaction::input, hashing::null>
             m_pending_inputs;
 
diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 5c1cb4b..366f61d 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -40,8 +40,8 @@ namespace cbdc {
         for(const auto& [tx_id, tx] : pending_txs()) {
             txids.insert(tx_id);
         }
-        for(const auto& [tx_id, inp] : pending_inputs()) {
-            txids.insert(tx_id);
+        for(const auto& [uhs_id, inp] : pending_inputs()) {
+            txids.insert(inp.m_prevout.m_tx_id);
         }
 
         for(const auto& tx_id : txids) {
-- 
2.43.0


From 99128e55e617b0585c60b0feb8881657ec30030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 30/34] fix: confirm every transaction the watchtower reports
 confirmed

One transaction that was not confirmed kept all later ones in the same
response from being confirmed.
---
 src/uhs/client/atomizer_client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 78e4475..79e4ec6 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -66,6 +66,7 @@ namespace cbdc {
 
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
+            bool confirmed{true};
             for(const auto& s : uhs_states) {
                 if((s.status() != cbdc::watchtower::search_status::unspent)
                    && (s.status() != cbdc::watchtower::search_status::spent)) {
@@ -75,15 +76,14 @@ namespace cbdc {
                                    to_string(s.uhs_id()),
                                    ", status:",
                                    static_cast<uint32_t>(s.status()));
-                    success = false;
+                    confirmed = false;
                     continue;
                 }
                 break;
             }
-            if(!success) {
-                continue;
+            if(!confirmed || !confirm_transaction(tx_id)) {
+                success = false;
             }
-            success = confirm_transaction(tx_id);
         }
 
         return success;
-- 
2.43.0


From 49b143dcedb01ac27a33907e2ea8dc783ff9714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 31/34] fix: check that a decoded address has data before
 reading it

---
 src/uhs/client/client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index b3e8017..cea64a3 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -43,10 +43,10 @@ namespace cbdc {
                 enc_data.end());
 
             auto pubkey = cbdc::hash_t();
-            if(data[0]
-                   != static_cast<uint8_t>(
-                       cbdc::client::address_type::public_key)
-               || data.size() != pubkey.size() + 1) {
+            if(data.size() != pubkey.size() + 1
+               || data[0]
+                      != static_cast<uint8_t>(
+                          cbdc::client::address_type::public_key)) {
                 std::cout << "Address is not a supported type" << std::endl;
                 return std::nullopt;
             }
-- 
2.43.0


From 774607fb315562a7eaa96c8fdf73122400419aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 32/34] fix: keep the mint promise alive until the coordinator
 answers

The callback used a local promise, which is gone when the answer comes
after the timeout; rejections and errors never set it.
---
 src/uhs/client/twophase_client.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 366f61d..0d4a55e 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -81,23 +81,26 @@ namespace cbdc {
                 = ctx.sign(m_secp.get(), m_opts.m_sentinel_private_keys[i]);
             ctx.m_attestations.insert(att);
         }
-        auto done = std::promise<void>();
-        auto done_fut = done.get_future();
+        // Shared with the callback, which may outlive this call
+        auto done = std::make_shared<std::promise<bool>>();
+        auto done_fut = done->get_future();
         auto res = m_coordinator_client.execute_transaction(
             ctx,
-            [&, tx_id = ctx.m_id](std::optional<bool> success) {
+            [this, done, tx_id = ctx.m_id](std::optional<bool> success) {
                 if(!success.has_value()) {
                     m_logger->error(
                         "Coordinator error processing transaction");
+                    done->set_value(false);
                     return;
                 }
                 if(!success.value()) {
                     m_logger->error("Coordinator rejected transaction");
+                    done->set_value(false);
                     return;
                 }
                 confirm_transaction(tx_id);
                 m_logger->info("Confirmed mint TX");
-                done.set_value();
+                done->set_value(true);
             });
         if(!res) {
             m_logger->error("Failed to send transaction to coordinator");
@@ -109,6 +112,6 @@ namespace cbdc {
             m_logger->error("Timed out waiting for mint response");
             return false;
         }
-        return res;
+        return done_fut.get();
     }
 }
-- 
2.43.0


From 269b4c9f60f767233b4d70a968fa909b09e19d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 33/34] fix: keep takers released once a queue is cleared

A taker that took an item pushed after clear() also removed the wakeup
flag, so that takers that had not woken up yet, and its own next call,
waited forever (for instance in the destructor of a server whose queue
is still fed).
---
 src/util/common/blocking_queue.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/common/blocking_queue.hpp b/src/util/common/blocking_queue.hpp
index 6d3fc6c..5c023f4 100644
--- a/src/util/common/blocking_queue.hpp
+++ b/src/util/common/blocking_queue.hpp
@@ -42,7 +42,6 @@ namespace cbdc {
             auto sz = [&]() {
                 std::unique_lock<std::mutex> lck(m_mut);
                 m_buffer.push(item);
-                m_wake = true;
                 return m_buffer.size();
             }();
             m_cv.notify_one();
@@ -61,7 +60,7 @@ namespace cbdc {
                 std::unique_lock<std::mutex> lck(m_mut);
                 if(m_buffer.empty()) {
                     m_cv.wait(lck, [&] {
-                        return m_wake;
+                        return m_wake || !m_buffer.empty();
                     });
                 }
 
@@ -70,7 +69,6 @@ namespace cbdc {
                     item = std::move(first_item<T, Q>());
                     m_buffer.pop();
                     popped = true;
-                    m_wake = !m_buffer.empty();
                 }
 
                 return popped;
-- 
2.43.0


From 654cdd554c16b080ca1d7e557d4d2ae747fd76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:10 +0000
Subject: [PATCH 34/34] fix: keep the index of a fully compacted raft log
 across restarts

compact() can remove all entries of the log (a follower does so when it
installs a snapshot). After a restart such a log started at index 1 again
instead of after the compacted entries.
---
 src/util/raft/log_store.cpp | 56 ++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index e276bc1..4f51783 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -11,30 +11,39 @@
 #include <libnuraft/buffer_serializer.hxx>
 
 namespace cbdc::raft {
+    // Log entry 0 is always empty. Its key stores the index of the last
+    // compacted entry if compaction removed all entries, so that the log
+    // continues from there after a restart.
+    static constexpr uint64_t compacted_idx_key = 0;
+
+    auto get_index(const leveldb::Slice& slice) -> uint64_t {
+        uint64_t ret{};
+        assert(slice.size() == sizeof(ret));
+        std::memcpy(&ret, slice.data(), sizeof(ret));
+        return ret;
+    }
+
     template<bool First>
     auto get_first_or_last_index(leveldb::DB* db,
                                  const leveldb::ReadOptions& opt) -> uint64_t {
         auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
 
-        if constexpr(First) {
-            it->SeekToFirst();
-            if(!it->Valid()) {
-                return 1;
-            }
-        } else {
-            it->SeekToLast();
-            if(!it->Valid()) {
-                return 0;
-            }
+        uint64_t compacted_idx{0};
+        it->SeekToFirst();
+        if(it->Valid() && get_index(it->key()) == compacted_idx_key) {
+            compacted_idx = get_index(it->value());
+            it->Next();
         }
 
-        const auto last_log_key_slice = it->key();
+        if(!it->Valid()) {
+            return First ? compacted_idx + 1 : compacted_idx;
+        }
 
-        uint64_t ret{};
-        assert(last_log_key_slice.size() == sizeof(ret));
-        std::memcpy(&ret, last_log_key_slice.data(), sizeof(ret));
+        if constexpr(!First) {
+            it->SeekToLast();
+        }
 
-        return ret;
+        return get_index(it->key());
     }
 
     auto log_store::load(const std::string& db_dir) -> bool {
@@ -91,7 +100,7 @@ namespace cbdc::raft {
 
             it->SeekToLast();
 
-            if(!it->Valid()) {
+            if(!it->Valid() || get_index(it->key()) == compacted_idx_key) {
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -195,8 +204,8 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto status = m_db->Get(m_read_opt, key.first, &val);
-            if(!status.ok()) {
-                assert(status.IsNotFound());
+            if(!status.ok() || index == compacted_idx_key) {
+                assert(status.ok() || status.IsNotFound());
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -301,6 +310,12 @@ namespace cbdc::raft {
                 data_slices[i - m_start_idx] = std::move(key.second);
             }
 
+            const auto compacted_key = get_key_slice(compacted_idx_key);
+            const auto compacted_val = get_key_slice(last_log_index);
+            if(last_log_index + 1 >= m_next_idx) {
+                batch.Put(compacted_key.first, compacted_val.first);
+            }
+
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
 
@@ -321,9 +336,10 @@ namespace cbdc::raft {
 
         leveldb::WriteBatch batch;
 
-        // Log entry 0 is always empty so we're not overwriting anything
-        // important
+        // The last possible log entry is never used so we're not overwriting
+        // anything important
         std::array<char, sizeof(uint64_t)> dummy_key_data{};
+        dummy_key_data.fill(static_cast<char>(0xff));
         leveldb::Slice dummy_key_slice(dummy_key_data.data(),
                                        dummy_key_data.size());
         batch.Put(dummy_key_slice, dummy_key_slice);
-- 
2.43.0

