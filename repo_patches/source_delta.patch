From 264da2a779eff4784ca4454cbbdb7aaf0c816d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 01/63] fix: do not unlock inputs held by another dtx when
 aborting a failed tx

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..62b6b68 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        auto& locked = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -167,7 +168,9 @@ namespace cbdc::locking_shard {
                 }
             }
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
-                if(hash_in_shard_range(uhs_id)) {
+                // Inputs of a tx which failed to lock are not ours to unlock,
+                // another dtx may hold them
+                if(locked[i] && hash_in_shard_range(uhs_id)) {
                     auto was_locked = m_locked.erase(uhs_id);
                     if(!complete_txs[i] && (was_locked != 0U)) {
                         m_uhs.emplace(uhs_id);
-- 
2.43.0


From a6eabf0400538ea3910358e42c445e7388aaff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 02/63] fix: only report completed transactions as complete

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 62b6b68..8a5367d 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -158,7 +158,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(complete_txs[i] && hash_in_shard_range(tx.m_tx.m_id)) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From 99ba0b8f70f86e6d470717eb71035a8af25b2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 03/63] fix: discard results of a previous recovery when
 recovering again

---
 src/parsec/broker/impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..9d954cb 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -883,7 +883,12 @@ namespace cbdc::parsec::broker {
         // Do not allow recovery when tickets are in-flight
         auto maybe_tickets = [&]() {
             std::unique_lock l(m_mut);
-            return !m_tickets.empty();
+            if(!m_tickets.empty()) {
+                return true;
+            }
+            // Do not mix in the results of a previous recovery
+            m_recovery_tickets.clear();
+            return false;
         }();
         if(maybe_tickets) {
             return false;
-- 
2.43.0


From d0b411df7b9d5a48028387711adaad5e0ff593cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 04/63] fix: do not iterate the live ticket map during broker
 recovery

---
 src/parsec/broker/impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 9d954cb..c491cc8 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -977,7 +977,9 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // Tickets can be finished, and thus erased, while iterating
+        const auto tickets = m_tickets;
+        for(const auto& [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
-- 
2.43.0


From 521b1c842c51ef989cfc5afb8cb8062d9c696373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 05/63] fix: read the highest ticket number under the broker's
 mutex

---
 src/parsec/broker/impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index c491cc8..aafee4f 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -68,6 +68,7 @@ namespace cbdc::parsec::broker {
     }
 
     auto impl::highest_ticket() -> ticket_number_type {
+        std::unique_lock l(m_mut);
         return m_highest_ticket;
     }
 
-- 
2.43.0


From 46e829351645fb0fffda832fa856a6e197567e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 06/63] fix: apply a replicated commit only once

---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..085b419 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -31,6 +31,10 @@ namespace cbdc::parsec::runtime_locking_shard {
                 return error_code::unknown_ticket;
             }
             auto& t = it->second;
+            if(t.m_state == ticket_state::committed) {
+                // Already applied, later tickets may have written the keys
+                return std::nullopt;
+            }
             t.m_state = ticket_state::committed;
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
-- 
2.43.0


From 5154e15a5b0bc767071345eea99bdb9d29e5599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 07/63] fix: answer failed runtime locking shard requests with
 an error of the operation's own type

---
 src/parsec/runtime_locking_shard/server.cpp | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index 062c91e..cfceb3b 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -101,14 +101,16 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             [this, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
                     m_log->error("Error response during prepare replication");
-                    callback(error_code::internal_error);
+                    callback(interface::prepare_return_type{
+                        shard_error{error_code::internal_error, std::nullopt}});
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
             m_log->error("Error replicating prepare");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 
@@ -117,7 +119,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                                const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during commit replication");
-            callback(error_code::internal_error);
+            callback(interface::commit_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
             return;
         }
 
@@ -128,7 +131,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating commit with internal shard");
-            callback(error_code::internal_error);
+            callback(interface::commit_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 
@@ -138,7 +142,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication",
                          static_cast<int>(ret.value()));
-            callback(error_code::internal_error);
+            callback(interface::rollback_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
             return;
         }
 
@@ -149,7 +154,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(interface::rollback_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 
@@ -158,7 +164,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                            const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication");
-            callback(error_code::internal_error);
+            callback(interface::finish_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
             return;
         }
 
@@ -169,7 +176,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(interface::finish_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 }
-- 
2.43.0


From bc0a68504f383a402ad3b0d9ff70a1ac5b265827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 08/63] fix: refuse recovery of a runtime locking shard that
 already holds state or tickets

---
 src/parsec/runtime_locking_shard/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsec/runtime_locking_shard/impl.cpp b/src/parsec/runtime_locking_shard/impl.cpp
index e6e1c67..76fae4e 100644
--- a/src/parsec/runtime_locking_shard/impl.cpp
+++ b/src/parsec/runtime_locking_shard/impl.cpp
@@ -449,7 +449,7 @@ namespace cbdc::parsec::runtime_locking_shard {
     auto impl::recover(const replicated_shard::state_type& state,
                        const replicated_shard::tickets_type& tickets) -> bool {
         std::unique_lock l(m_mut);
-        if(!m_tickets.empty() && !m_state.empty()) {
+        if(!m_tickets.empty() || !m_state.empty()) {
             m_log->error("Shard state is not empty, cannot recover");
             return false;
         }
-- 
2.43.0


From 735c7b343a443713383ac4894f9d16b87ea96f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 09/63] fix: report a failed runtime locking shard RPC as an
 error instead of aborting

---
 src/parsec/runtime_locking_shard/client.cpp | 35 +++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/client.cpp b/src/parsec/runtime_locking_shard/client.cpp
index 78be3f5..e8fb2e6 100644
--- a/src/parsec/runtime_locking_shard/client.cpp
+++ b/src/parsec/runtime_locking_shard/client.cpp
@@ -31,7 +31,11 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             std::move(req),
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
+                if(!resp.has_value()) {
+                    result_callback(
+                        shard_error{error_code::internal_error, std::nullopt});
+                    return;
+                }
                 assert(std::holds_alternative<try_lock_return_type>(
                     resp.value()));
                 result_callback(std::get<try_lock_return_type>(resp.value()));
@@ -46,7 +50,11 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             std::move(req),
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
+                if(!resp.has_value()) {
+                    result_callback(
+                        shard_error{error_code::internal_error, std::nullopt});
+                    return;
+                }
                 assert(
                     std::holds_alternative<prepare_return_type>(resp.value()));
                 result_callback(std::get<prepare_return_type>(resp.value()));
@@ -59,7 +67,11 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
+                if(!resp.has_value()) {
+                    result_callback(
+                        shard_error{error_code::internal_error, std::nullopt});
+                    return;
+                }
                 assert(
                     std::holds_alternative<commit_return_type>(resp.value()));
                 result_callback(std::get<commit_return_type>(resp.value()));
@@ -72,7 +84,11 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
+                if(!resp.has_value()) {
+                    result_callback(
+                        shard_error{error_code::internal_error, std::nullopt});
+                    return;
+                }
                 assert(std::holds_alternative<rollback_return_type>(
                     resp.value()));
                 result_callback(std::get<rollback_return_type>(resp.value()));
@@ -85,7 +101,11 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
+                if(!resp.has_value()) {
+                    result_callback(
+                        shard_error{error_code::internal_error, std::nullopt});
+                    return;
+                }
                 assert(
                     std::holds_alternative<finish_return_type>(resp.value()));
                 result_callback(std::get<finish_return_type>(resp.value()));
@@ -99,7 +119,10 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
+                if(!resp.has_value()) {
+                    result_callback(error_code::internal_error);
+                    return;
+                }
                 assert(std::holds_alternative<get_tickets_return_type>(
                     resp.value()));
                 result_callback(
-- 
2.43.0


From 37c49bcde2c5f8641b7a56b1b85c10567aa42dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 10/63] fix: fail queued ticket requests instead of aborting
 when the ticket machine cannot answer

---
 src/parsec/ticket_machine/client.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsec/ticket_machine/client.cpp b/src/parsec/ticket_machine/client.cpp
index 07dc623..ae9b4fb 100644
--- a/src/parsec/ticket_machine/client.cpp
+++ b/src/parsec/ticket_machine/client.cpp
@@ -49,7 +49,8 @@ namespace cbdc::parsec::ticket_machine::rpc {
         return m_client->call(
             std::monostate{},
             [this](std::optional<get_ticket_number_return_type> res) {
-                assert(res.has_value());
+                // The server could not process the request
+                auto ret = res.value_or(error_code{});
                 std::visit(overloaded{[&](ticket_number_range_type range) {
                                           handle_ticket_numbers(range);
                                       },
@@ -66,7 +67,7 @@ namespace cbdc::parsec::ticket_machine::rpc {
                                               callbacks.pop();
                                           }
                                       }},
-                           res.value());
+                           ret);
             });
     }
 
-- 
2.43.0


From 46f8d0ac83f7a5f045f94e32e735dce8fee8e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 11/63] fix: keep the committed result when finishing a ticket
 has to be retried

---
 src/parsec/agent/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 7fd050c..557bb1d 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -567,8 +567,8 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::finish_failed;
             m_log->error("Error contacting broker for finish");
-            m_result = error_code::broker_unreachable;
-            do_result();
+            // Keep m_result for when the retried finish completes
+            get_result_callback()(error_code::broker_unreachable);
         }
     }
 
@@ -583,8 +583,8 @@ namespace cbdc::parsec::agent {
             m_state = state::finish_failed;
             m_log->error("Broker error for finish for",
                          m_ticket_number.value());
-            m_result = error_code::finish_error;
-            do_result();
+            // Keep m_result for when the retried finish completes
+            get_result_callback()(error_code::finish_error);
         } else {
             m_state = state::finish_complete;
             m_log->trace(this,
-- 
2.43.0


From e518039211c351fafbdb2191282a20b4c75b9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 12/63] fix: report an agent RPC without an answer as an error
 instead of aborting

---
 src/parsec/agent/client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsec/agent/client.cpp b/src/parsec/agent/client.cpp
index 18efaa7..11ffb6c 100644
--- a/src/parsec/agent/client.cpp
+++ b/src/parsec/agent/client.cpp
@@ -26,8 +26,10 @@ namespace cbdc::parsec::agent::rpc {
             = request{std::move(function), std::move(param), is_readonly_run};
         return m_client->call(std::move(req),
                               [result_callback](std::optional<response> resp) {
-                                  assert(resp.has_value());
-                                  result_callback(resp.value());
+                                  // The agent could not process the request
+                                  result_callback(resp.value_or(
+                                      interface::error_code::
+                                          broker_unreachable));
                               });
     }
 }
-- 
2.43.0


From a8b8b76cef0c48b9f53d4f957a572bdb41695889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 13/63] fix: closing a connection manager could leave its
 handler thread waiting forever

---
 src/util/network/connection_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index 2a2f457..dcc4657 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -182,7 +182,12 @@ namespace cbdc::network {
     }
 
     void connection_manager::close() {
-        m_running = false;
+        {
+            // A thread in handle_messages() must not miss the notification
+            // between checking m_running and starting to wait
+            std::lock_guard<std::mutex> l(m_async_recv_mut);
+            m_running = false;
+        }
         m_listen_selector.unblock();
         m_listener.close();
         {
-- 
2.43.0


From 64e96d42563eaab9a1572f2d2b980a22727a9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 14/63] fix: shutting down a peer could miss waking its
 reconnect thread

---
 src/util/network/peer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index e2c477d..4934559 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -31,7 +31,12 @@ namespace cbdc::network {
     }
 
     void peer::shutdown() {
-        m_shut_down = true;
+        {
+            // The reconnect thread must not miss the notification between
+            // checking m_shut_down and starting to wait
+            std::lock_guard<std::mutex> l(m_reconnect_mut);
+            m_shut_down = true;
+        }
         m_reconnect_cv.notify_one();
         if(m_reconnect_thread.joinable()) {
             m_reconnect_thread.join();
-- 
2.43.0


From 87f559adb2c977b59c14cdf238c3994ed4d553bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 15/63] fix: concurrent send_to_one calls raced on the random
 engine

---
 src/util/network/connection_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index dcc4657..50dedd6 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -242,7 +242,8 @@ namespace cbdc::network {
         -> bool {
         bool sent{false};
         {
-            std::shared_lock<std::shared_mutex> l(m_peer_mutex);
+            // Exclusive as choosing the peer updates m_rnd
+            std::unique_lock<std::shared_mutex> l(m_peer_mutex);
             // Start at a random place in the peers vector to balance load
             // across connections
             auto dist
-- 
2.43.0


From 91c1198bdf494104db2a2217812ed33a70330ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 16/63] fix: get_row callbacks referred to locals of calls that
 had already returned

---
 src/parsec/util.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parsec/util.cpp b/src/parsec/util.cpp
index 4ac830f..82c9f76 100644
--- a/src/parsec/util.cpp
+++ b/src/parsec/util.cpp
@@ -253,9 +253,11 @@ namespace cbdc::parsec {
                      cbdc::parsec::broker::interface::try_lock_return_type)>&
                      result_callback)
         -> cbdc::parsec::broker::interface::try_lock_return_type {
-        std::promise<cbdc::parsec::broker::interface::try_lock_return_type>
-            res_promise;
-        auto res_future = res_promise.get_future();
+        // The callbacks can outlive this call, so they share the promise and
+        // copy everything else
+        auto res_promise = std::make_shared<std::promise<
+            cbdc::parsec::broker::interface::try_lock_return_type>>();
+        auto res_future = res_promise->get_future();
 
         auto finish_cb = [=](auto finish_ret) {
             if(finish_ret.has_value()) {
@@ -263,11 +265,11 @@ namespace cbdc::parsec {
             }
         };
 
-        auto begin_cb = [&](auto begin_ret) {
+        auto begin_cb = [=](auto begin_ret) {
             if(!std::holds_alternative<
                    cbdc::parsec::ticket_machine::ticket_number_type>(
                    begin_ret)) {
-                res_promise.set_value(
+                res_promise->set_value(
                     cbdc::parsec::broker::interface::error_code::
                         ticket_number_assignment);
                 result_callback(cbdc::parsec::broker::interface::error_code::
@@ -282,16 +284,16 @@ namespace cbdc::parsec {
                 ticket_number,
                 key,
                 cbdc::parsec::runtime_locking_shard::lock_type::read,
-                [&](auto try_lock_res) {
+                [=](auto try_lock_res) {
                     if(!std::holds_alternative<cbdc::buffer>(try_lock_res)) {
-                        res_promise.set_value(
+                        res_promise->set_value(
                             cbdc::parsec::broker::interface::error_code::
                                 shard_unreachable);
                         result_callback(cbdc::parsec::broker::interface::
                                             error_code::shard_unreachable);
                         return;
                     }
-                    res_promise.set_value(try_lock_res);
+                    res_promise->set_value(try_lock_res);
                     result_callback(try_lock_res);
 
                     auto commit_cb = [=](auto commit_ret) {
-- 
2.43.0


From d8fda6a9ea21c63b87a01be6ceafe19dad434621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 17/63] fix: a late mint response used a promise that was gone
 after the timeout

---
 src/uhs/client/twophase_client.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 5c1cb4b..014e5cd 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -81,11 +81,12 @@ namespace cbdc {
                 = ctx.sign(m_secp.get(), m_opts.m_sentinel_private_keys[i]);
             ctx.m_attestations.insert(att);
         }
-        auto done = std::promise<void>();
-        auto done_fut = done.get_future();
+        // Shared with the callback, which can run after a timeout below
+        auto done = std::make_shared<std::promise<void>>();
+        auto done_fut = done->get_future();
         auto res = m_coordinator_client.execute_transaction(
             ctx,
-            [&, tx_id = ctx.m_id](std::optional<bool> success) {
+            [&, done, tx_id = ctx.m_id](std::optional<bool> success) {
                 if(!success.has_value()) {
                     m_logger->error(
                         "Coordinator error processing transaction");
@@ -97,7 +98,7 @@ namespace cbdc {
                 }
                 confirm_transaction(tx_id);
                 m_logger->info("Confirmed mint TX");
-                done.set_value();
+                done->set_value();
             });
         if(!res) {
             m_logger->error("Failed to send transaction to coordinator");
-- 
2.43.0


From 8f298d682e603c9427b52ace84195af95f16dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 18/63] fix: a late recovery response used a promise that was
 gone after the timeout

---
 src/parsec/agent/agentd.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parsec/agent/agentd.cpp b/src/parsec/agent/agentd.cpp
index c4b1295..50a73a0 100644
--- a/src/parsec/agent/agentd.cpp
+++ b/src/parsec/agent/agentd.cpp
@@ -81,11 +81,12 @@ auto main(int argc, char** argv) -> int {
 
     log->info("Requesting broker recovery...");
 
-    auto recover_success = std::promise<bool>();
-    auto recover_fut = recover_success.get_future();
+    auto recover_success = std::make_shared<std::promise<bool>>();
+    auto recover_fut = recover_success->get_future();
     auto success = broker->recover(
-        [&](cbdc::parsec::broker::interface::recover_return_type res) {
-            recover_success.set_value(!res.has_value());
+        [recover_success](
+            cbdc::parsec::broker::interface::recover_return_type res) {
+            recover_success->set_value(!res.has_value());
         });
     if(!success) {
         log->error("Error requesting broker recovery");
-- 
2.43.0


From 9e8f7c1294fb9263b573e380fc2042a23c060c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 19/63] fix: callbacks pending at client destruction ran under
 the response mutex

---
 src/util/rpc/tcp_client.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/rpc/tcp_client.hpp b/src/util/rpc/tcp_client.hpp
index 61cc3d3..5a37314 100644
--- a/src/util/rpc/tcp_client.hpp
+++ b/src/util/rpc/tcp_client.hpp
@@ -42,12 +42,15 @@ namespace cbdc::rpc {
             if(m_handler_thread.joinable()) {
                 m_handler_thread.join();
             }
+            // Response callbacks may use this client, so call them without
+            // holding the mutex.
+            auto responses = decltype(m_responses)();
             {
                 std::unique_lock<std::mutex> l(m_responses_mut);
-                for(auto& [request_id, action] : m_responses) {
-                    set_response_value(action, std::nullopt);
-                }
-                m_responses.clear();
+                responses.swap(m_responses);
+            }
+            for(auto& [request_id, action] : responses) {
+                set_response_value(action, std::nullopt);
             }
         }
 
-- 
2.43.0


From b37aa816f0479c42b12d9cb2c2c0ade84386cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 20/63] fix: stopping the coordinator waited forever for a
 handler waiting for batch space

---
 src/uhs/twophase/coordinator/controller.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 5ddfc5d..809faf1 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -187,8 +187,9 @@ namespace cbdc::coordinator {
             std::lock_guard<std::mutex> l(m_batch_mut);
             m_running = false;
         }
+        // Both the batch executor and a request handler may be waiting
+        m_batch_cv.notify_all();
         m_rpc_server.reset();
-        m_batch_cv.notify_one();
 
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
-- 
2.43.0


From bd04968d3480ba289f84c92c8264a0023290f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 21/63] fix: announced lengths made receiving and decoding
 allocate unbounded memory

---
 src/util/network/tcp_socket.cpp   |  9 +++++++--
 src/util/serialization/format.cpp | 17 ++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index 35fbd7c..c7c6b1d 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -5,6 +5,9 @@
 
 #include "tcp_socket.hpp"
 
+#include "util/common/config.hpp"
+
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <unistd.h>
@@ -105,9 +108,11 @@ namespace cbdc::network {
         pkt.clear();
 
         total_read = 0;
-        auto buf = std::vector<std::byte>(pkt_sz);
+        auto buf = std::vector<std::byte>(
+            std::min(pkt_sz, config::maximum_reservation));
         while(total_read < pkt_sz) {
-            const auto buf_sz = pkt_sz - total_read;
+            const auto buf_sz
+                = std::min<uint64_t>(pkt_sz - total_read, buf.size());
             auto n = read(m_sock_fd, buf.data(), buf_sz);
             if(n <= 0) {
                 return false;
diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..d64f657 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -29,9 +29,20 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+
+        b.clear();
+        while(b.size() < sz) {
+            const auto offset = b.size();
+            const auto len
+                = std::min(sz - offset, config::maximum_reservation);
+            b.extend(len);
+            if(!deser.read(b.data_at(offset), len)) {
+                return deser;
+            }
+        }
         return deser;
     }
 }
-- 
2.43.0


From aa343a274fcc3eb2575e8ef06761a600651bf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 22/63] fix: a malformed variant index aborted the decoding
 process

---
 src/util/raft/serialization.cpp              |  4 ++++
 src/util/raft/serialization.hpp              |  3 +++
 src/util/serialization/buffer_serializer.cpp |  4 ++++
 src/util/serialization/buffer_serializer.hpp |  3 +++
 src/util/serialization/format.hpp            | 14 +++++++++++---
 src/util/serialization/serializer.hpp        |  4 ++++
 src/util/serialization/size_serializer.cpp   |  2 ++
 src/util/serialization/size_serializer.hpp   |  3 +++
 src/util/serialization/stream_serializer.cpp |  4 ++++
 src/util/serialization/stream_serializer.hpp |  3 +++
 10 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index e6c23d2..305ad8d 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -50,4 +50,8 @@ namespace cbdc {
         std::memcpy(data, m_buf.get_raw(len), len);
         return true;
     }
+
+    void nuraft_serializer::set_failed() {
+        m_valid = false;
+    }
 }
diff --git a/src/util/raft/serialization.hpp b/src/util/raft/serialization.hpp
index 084ffd4..ec4db9d 100644
--- a/src/util/raft/serialization.hpp
+++ b/src/util/raft/serialization.hpp
@@ -53,6 +53,9 @@ namespace cbdc {
         ///        from the buffer to the given destination.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Indicates failure from now on, until reset.
+        void set_failed() final;
+
       private:
         nuraft::buffer& m_buf;
         bool m_valid{true};
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..98bdf1e 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -45,4 +45,8 @@ namespace cbdc {
         m_cursor += len;
         return true;
     }
+
+    void buffer_serializer::set_failed() {
+        m_valid = false;
+    }
 }
diff --git a/src/util/serialization/buffer_serializer.hpp b/src/util/serialization/buffer_serializer.hpp
index 97fd435..d7d5994 100644
--- a/src/util/serialization/buffer_serializer.hpp
+++ b/src/util/serialization/buffer_serializer.hpp
@@ -49,6 +49,9 @@ namespace cbdc {
         ///         from the buffer.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Indicates failure from now on, until reset.
+        void set_failed() final;
+
       private:
         cbdc::buffer& m_pkt;
         size_t m_cursor{};
diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..55024b2 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -388,8 +388,14 @@ namespace cbdc {
             std::variant_size_v<std::remove_reference_t<decltype(var)>> < std::
                 numeric_limits<S>::max());
         S idx{};
-        deser >> idx;
+        if(!(deser >> idx)) {
+            return deser;
+        }
         auto var_idx = static_cast<size_t>(idx);
+        if(var_idx >= sizeof...(Ts)) {
+            deser.set_failed();
+            return deser;
+        }
         var = expand_type<Ts...>(var_idx);
         std::visit(
             [&](auto&& arg) {
@@ -421,11 +427,13 @@ namespace cbdc {
             S idx{};
             deser >> idx;
             auto i = static_cast<size_t>(idx);
-            assert(i < std::variant_size_v<T>);
+            if(i >= std::variant_size_v<T>) {
+                deser.set_failed();
+                i = 0;
+            }
             static constexpr auto t = std::array{+[](serializer& d) {
                 return T{std::in_place_type<Ts>, d};
             }...};
-            // TODO: deserialization error handling for variant indexes.
             return t.at(i)(deser);
         }
     }
diff --git a/src/util/serialization/serializer.hpp b/src/util/serialization/serializer.hpp
index 54291c4..2507cd7 100644
--- a/src/util/serialization/serializer.hpp
+++ b/src/util/serialization/serializer.hpp
@@ -53,6 +53,10 @@ namespace cbdc {
         ///         from the buffer into the destination.
         virtual auto read(void* data, size_t len) -> bool = 0;
 
+        /// Marks the data as malformed. The serializer indicates failure
+        /// from then on, as it does after a failed read.
+        virtual void set_failed() = 0;
+
       protected:
         serializer() = default;
     };
diff --git a/src/util/serialization/size_serializer.cpp b/src/util/serialization/size_serializer.cpp
index 694a8cd..a2c1e94 100644
--- a/src/util/serialization/size_serializer.cpp
+++ b/src/util/serialization/size_serializer.cpp
@@ -31,6 +31,8 @@ namespace cbdc {
         return false;
     }
 
+    void size_serializer::set_failed() {}
+
     [[nodiscard]] auto size_serializer::size() const -> size_t {
         return m_cursor;
     }
diff --git a/src/util/serialization/size_serializer.hpp b/src/util/serialization/size_serializer.hpp
index 00d8046..f2ab23f 100644
--- a/src/util/serialization/size_serializer.hpp
+++ b/src/util/serialization/size_serializer.hpp
@@ -44,6 +44,9 @@ namespace cbdc {
         /// \return false.
         auto read(void* data, size_t len) -> bool final;
 
+        /// No effect, as there is no data which could be malformed.
+        void set_failed() final;
+
         /// Returns the number of bytes accumulated in the size counter during
         /// mock serialization.
         /// \return number of bytes a buffer would need for serialization.
diff --git a/src/util/serialization/stream_serializer.cpp b/src/util/serialization/stream_serializer.cpp
index 9a989bb..a815bc3 100644
--- a/src/util/serialization/stream_serializer.cpp
+++ b/src/util/serialization/stream_serializer.cpp
@@ -11,4 +11,8 @@ namespace cbdc {
     stream_serializer::operator bool() const {
         return m_str.good();
     }
+
+    void stream_serializer::set_failed() {
+        m_str.setstate(std::ios::failbit);
+    }
 }
diff --git a/src/util/serialization/stream_serializer.hpp b/src/util/serialization/stream_serializer.hpp
index d083406..5fce3c0 100644
--- a/src/util/serialization/stream_serializer.hpp
+++ b/src/util/serialization/stream_serializer.hpp
@@ -25,6 +25,9 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Puts the stream into the failed state.
+        void set_failed() final;
+
       private:
         std::ios& m_str;
     };
-- 
2.43.0


From 06681d3417f0200346646f32a6c24198bab2b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 23/63] fix: the watchtower and its clients acted on messages
 that could not be decoded

---
 src/uhs/atomizer/watchtower/client.cpp     | 6 ++++++
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/client.cpp b/src/uhs/atomizer/watchtower/client.cpp
index 8afee9d..357215e 100644
--- a/src/uhs/atomizer/watchtower/client.cpp
+++ b/src/uhs/atomizer/watchtower/client.cpp
@@ -27,6 +27,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
@@ -90,6 +93,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 7ffe9a2..09abff5 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -142,6 +142,10 @@ auto cbdc::watchtower::controller::external_server_handler(
     cbdc::network::message_t&& pkt) -> std::optional<cbdc::buffer> {
     auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
     auto req = request(deser);
+    if(!deser) {
+        m_logger->error("Invalid external request packet");
+        return std::nullopt;
+    }
     auto res_handler = overloaded{
         [&](const cbdc::watchtower::status_update_request& su_req)
             -> cbdc::buffer {
-- 
2.43.0


From 74cbd329ea440029db8d957652a6408d4b42a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 24/63] fix: a truncated preseed file was reported as loaded

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 8a5367d..3db2f47 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -70,7 +70,7 @@ namespace cbdc::locking_shard {
                                                            * uhs_size_factor);
             m_uhs.rehash(bucket_count);
             deser >> m_uhs;
-            return true;
+            return static_cast<bool>(deser);
         }
         return false;
     }
-- 
2.43.0


From baf9931cfca3799c735c2b9b4d7eff08f510690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 25/63] fix: the atomizer used any offset of a transaction
 without inputs as a cache index

---
 src/uhs/atomizer/atomizer/atomizer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer.cpp b/src/uhs/atomizer/atomizer/atomizer.cpp
index cc83610..ee3ec2f 100644
--- a/src/uhs/atomizer/atomizer/atomizer.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer.cpp
@@ -10,6 +10,8 @@
 #include "util/serialization/buffer_serializer.hpp"
 #include "util/serialization/format.hpp"
 
+#include <algorithm>
+
 namespace cbdc::atomizer {
     auto atomizer::make_block()
         -> std::pair<block, std::vector<cbdc::watchtower::tx_error>> {
@@ -45,13 +47,16 @@ namespace cbdc::atomizer {
                           transaction::compact_tx tx,
                           std::unordered_set<uint32_t> attestations)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(block_height);
+        auto height_offset = get_notification_offset(block_height);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
             return offset_err;
         }
 
+        // Transactions without inputs are accepted with any height.
+        height_offset = std::min<uint64_t>(height_offset, m_spent_cache_depth);
+
         // Search the incomplete transactions vector for this notification's
         // block height offset. Note, we might be able to defer this insertion
         // until after we've checked if the transaction is complete.
@@ -141,7 +146,9 @@ namespace cbdc::atomizer {
             return offset_err;
         }
 
-        auto cache_check_range = height_offset;
+        // Transactions without inputs are accepted with any height.
+        auto cache_check_range
+            = std::min<uint64_t>(height_offset, m_spent_cache_depth);
 
         auto err_set = check_stxo_cache(tx, cache_check_range);
         if(err_set) {
-- 
2.43.0


From a35e36ddf05f0a388dfa0b7eaac65a4c629033e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 26/63] fix: the shard ignored database errors when reading
 inputs and storing blocks

---
 src/uhs/atomizer/shard/shard.cpp | 28 ++++++++++++++++++++--------
 src/uhs/atomizer/shard/shard.hpp |  2 +-
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index c328acf..58b5645 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -38,9 +38,14 @@ namespace cbdc::shard {
             leveldb::Slice startBestBlockHeight(
                 height_arr.data(),
                 sizeof(this->m_best_block_height));
-            this->m_db->Put(this->m_write_options,
-                            m_best_block_height_key,
-                            startBestBlockHeight);
+            const auto putRes = this->m_db->Put(this->m_write_options,
+                                                m_best_block_height_key,
+                                                startBestBlockHeight);
+            if(!putRes.ok()) {
+                return putRes.ToString();
+            }
+        } else if(!bestBlockRes.ok()) {
+            return bestBlockRes.ToString();
         } else {
             assert(bestBlockHeight.size()
                    == sizeof(this->m_best_block_height));
@@ -85,17 +90,19 @@ namespace cbdc::shard {
         }
 
         // Bump the best block height
-        this->m_best_block_height++;
+        const uint64_t new_height = m_best_block_height + 1;
         std::array<char, sizeof(m_best_block_height)> height_arr{};
-        std::memcpy(height_arr.data(),
-                    &m_best_block_height,
-                    sizeof(m_best_block_height));
+        std::memcpy(height_arr.data(), &new_height, sizeof(new_height));
         leveldb::Slice newBestBlockHeight(height_arr.data(),
                                           sizeof(this->m_best_block_height));
         batch.Put(m_best_block_height_key, newBestBlockHeight);
 
         // Commit the changes atomically
-        this->m_db->Write(this->m_write_options, &batch);
+        const auto res = this->m_db->Write(this->m_write_options, &batch);
+        if(!res.ok()) {
+            return false;
+        }
+        this->m_best_block_height = new_height;
 
         update_snapshot();
 
@@ -147,6 +154,11 @@ namespace cbdc::shard {
             const auto& res = m_db->Get(read_options, OutPointKey, &op);
             if(res.IsNotFound()) {
                 dne_inputs.push_back(inp);
+            } else if(!res.ok()) {
+                // The input could not be looked up
+                return cbdc::watchtower::tx_error{
+                    tx.m_id,
+                    cbdc::watchtower::tx_error_sync{}};
             } else {
                 attestations.insert(i);
             }
diff --git a/src/uhs/atomizer/shard/shard.hpp b/src/uhs/atomizer/shard/shard.hpp
index 19ad733..55c3160 100644
--- a/src/uhs/atomizer/shard/shard.hpp
+++ b/src/uhs/atomizer/shard/shard.hpp
@@ -58,7 +58,7 @@ namespace cbdc::shard {
         /// whose block height is one greater than the previous best block
         /// height; rejects non-contiguous blocks.
         /// \param blk the block to digest.
-        /// \return true if the shard successfully digested the block. False if the block height is not contiguous.
+        /// \return true if the shard successfully digested the block. False if the block height is not contiguous or the block could not be stored.
         auto digest_block(const cbdc::atomizer::block& blk) -> bool;
 
         /// Returns the height of the most recently digested block.
-- 
2.43.0


From 2c425906a3648f9a8c59aea82ee15fd5eb384b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 27/63] fix: an error stayed unreported once an older one for
 the same transaction was evicted

---
 src/uhs/atomizer/watchtower/error_cache.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..e806e1b 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -17,19 +17,26 @@ namespace cbdc::watchtower {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
                 auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                // A newer error might have replaced the evicted one.
+                auto evict = [&](auto& cache, const hash_t& id) {
+                    auto it = cache.find(id);
+                    if(it != cache.end() && it->second == old_err) {
+                        cache.erase(it);
+                    }
+                };
+                evict(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       evict(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       evict(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +49,17 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From fdbca8deff7137048b9932e7291fc90d94b90238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 28/63] fix: the watchtower fetched blocks forever after an old
 block

---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 09abff5..6db6ba3 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -104,6 +104,10 @@ auto cbdc::watchtower::controller::atomizer_handler(
                     "with",
                     blk.m_transactions.size(),
                     "transactions.");
+    if(blk.m_height <= m_last_blk_height) {
+        m_logger->warn("Ignoring old block. Last block:", m_last_blk_height);
+        return std::nullopt;
+    }
     if(blk.m_height != (m_last_blk_height + 1)) {
         m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
         while(blk.m_height != (m_last_blk_height + 1)) {
-- 
2.43.0


From dfceeb3e62413f6b945ba79bcfb536602160da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 29/63] fix: a recovered discard was never sent to the shards

---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..9df0a19 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -253,6 +253,11 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        // The replicated discard state doesn't include which shards took
+        // part, so discard the dtx in all of them.
+        for(auto& idxs : m_tx_idxs) {
+            idxs.assign({0});
+        }
     }
 
     auto distributed_tx::size() const -> size_t {
-- 
2.43.0


From 48d8ff71503c2c94b8d62b10739fcaa0de46e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 30/63] fix: quitting while the coordinator starts skipped
 stopping it

When the destructor set the quit flag while the start/stop thread was
starting the coordinator, the thread left its loop without stopping it:
the executor thread was still joinable when it was destroyed, which
terminates the process.
---
 src/uhs/twophase/coordinator/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 809faf1..6a4cb17 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -535,7 +535,7 @@ namespace cbdc::coordinator {
     }
 
     void controller::start_stop_func() {
-        while(!m_quit) {
+        while(true) {
             bool stopping{false};
             bool quitting{false};
             {
-- 
2.43.0


From c4667129def51b062c1927ab713689b5c6e90a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 31/63] fix: the sentinel chose shards by the wrong input of a
 transaction

---
 src/uhs/atomizer/sentinel/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index ac2af00..d05164e 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -192,7 +192,7 @@ namespace cbdc::sentinel {
                 if(inputs_sent.find(j) != inputs_sent.end()) {
                     continue;
                 }
-                if(!config::hash_in_shard_range(range, ctx.m_inputs[i])) {
+                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                     continue;
                 }
                 inputs_sent.insert(j);
-- 
2.43.0


From 2cbc77b3cb843be2628abc7eba5bb00f14dd2d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 32/63] fix: sentinel threads drew random peers from an
 unguarded generator

---
 src/uhs/twophase/sentinel_2pc/controller.cpp | 5 ++++-
 src/uhs/twophase/sentinel_2pc/controller.hpp | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 4c6fc79..bae45c2 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -181,7 +181,10 @@ namespace cbdc::sentinel_2pc {
         if(ctx.m_attestations.size() < m_opts.m_attestation_threshold) {
             auto success = false;
             while(!success) {
-                auto sentinel_id = m_dist(m_rand);
+                auto sentinel_id = [&]() {
+                    std::unique_lock l(m_rand_mut);
+                    return m_dist(m_rand);
+                }();
                 if(requested.find(sentinel_id) != requested.end()) {
                     continue;
                 }
diff --git a/src/uhs/twophase/sentinel_2pc/controller.hpp b/src/uhs/twophase/sentinel_2pc/controller.hpp
index b5485eb..f0f0de2 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.hpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.hpp
@@ -17,6 +17,7 @@
 #include "util/common/hashmap.hpp"
 #include "util/network/connection_manager.hpp"
 
+#include <mutex>
 #include <random>
 
 namespace cbdc::sentinel_2pc {
@@ -104,6 +105,7 @@ namespace cbdc::sentinel_2pc {
         std::random_device m_r{};
         std::default_random_engine m_rand{m_r()};
         std::uniform_int_distribution<size_t> m_dist{};
+        std::mutex m_rand_mut;
 
         privkey_t m_privkey{};
     };
-- 
2.43.0


From bb16ab2834b478190ac5a6796d09abafeb5b39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 33/63] fix: the archiver counted a block it failed to store as
 archived

---
 src/uhs/atomizer/archiver/controller.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/archiver/controller.cpp b/src/uhs/atomizer/archiver/controller.cpp
index 7fc850c..b2e782f 100644
--- a/src/uhs/atomizer/archiver/controller.cpp
+++ b/src/uhs/atomizer/archiver/controller.cpp
@@ -218,10 +218,14 @@ namespace cbdc::archiver {
 
             batch.Put(height_str, blk_slice);
             batch.Put(m_bestblock_key, height_str);
-            m_best_height++;
 
             const auto res = m_db->Write(m_write_options, &batch);
-            assert(res.ok());
+            if(!res.ok()) {
+                m_logger->fatal("Failed to store block",
+                                blk.m_height,
+                                res.ToString());
+            }
+            m_best_height++;
 
             m_logger->trace("Digested block ", blk.m_height);
             if(m_sample_collection_active) {
-- 
2.43.0


From 6cfb06c8d2530057b6da62a8ebfaee42ef5bd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 34/63] fix: keep the raft log's key comparator alive until its
 database is closed

---
 src/util/raft/log_store.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/raft/log_store.hpp b/src/util/raft/log_store.hpp
index e993353..9b9628a 100644
--- a/src/util/raft/log_store.hpp
+++ b/src/util/raft/log_store.hpp
@@ -104,6 +104,8 @@ namespace cbdc::raft {
         auto flush() -> bool override;
 
       private:
+        // The database uses its comparator until it is closed
+        index_comparator m_cmp;
         std::unique_ptr<leveldb::DB> m_db{};
         mutable std::mutex m_db_mut{};
         uint64_t m_next_idx{};
@@ -111,8 +113,6 @@ namespace cbdc::raft {
 
         leveldb::ReadOptions m_read_opt;
         leveldb::WriteOptions m_write_opt;
-
-        index_comparator m_cmp;
     };
 }
 
-- 
2.43.0


From 94c41faeccde657eb712ac55c36b456cae8c3892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 35/63] fix: do not count raft log entries as stored when the
 database failed to store them

---
 src/util/raft/log_store.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index e276bc1..127c670 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -6,11 +6,20 @@
 #include "log_store.hpp"
 
 #include <array>
+#include <cstdlib>
 #include <cstring>
 #include <leveldb/write_batch.h>
 #include <libnuraft/buffer_serializer.hxx>
 
 namespace cbdc::raft {
+    /// A log entry must never count as stored when the database failed to
+    /// store it.
+    void require_stored(const leveldb::Status& status) {
+        if(!status.ok()) {
+            std::exit(EXIT_FAILURE);
+        }
+    }
+
     template<bool First>
     auto get_first_or_last_index(leveldb::DB* db,
                                  const leveldb::ReadOptions& opt) -> uint64_t {
@@ -128,7 +137,7 @@ namespace cbdc::raft {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto key = get_key_slice(m_next_idx);
             const auto status = m_db->Put(m_write_opt, key.first, value.first);
-            assert(status.ok());
+            require_stored(status);
 
             m_next_idx++;
             return m_next_idx - 1;
@@ -154,7 +163,7 @@ namespace cbdc::raft {
             }
 
             const auto status = m_db->Write(m_write_opt, &batch);
-            assert(status.ok());
+            require_stored(status);
 
             m_next_idx = index + 1;
         }
@@ -278,7 +287,7 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto status = m_db->Write(m_write_opt, &batch);
-            assert(status.ok());
+            require_stored(status);
 
             m_start_idx
                 = get_first_or_last_index<true>(m_db.get(), m_read_opt);
@@ -302,7 +311,7 @@ namespace cbdc::raft {
             }
 
             const auto status = m_db->Write(m_write_opt, &batch);
-            assert(status.ok());
+            require_stored(status);
 
             m_start_idx = last_log_index + 1;
             m_next_idx = std::max(m_next_idx, m_start_idx);
-- 
2.43.0


From 66a5e4a85f2352a40c1c5d60257a3a5abdd0ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 36/63] fix: compacting an already compacted part of the raft
 log must not wrap around

---
 src/util/raft/log_store.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index 127c670..d6679ea 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -302,6 +302,11 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
 
+            if(last_log_index < m_start_idx) {
+                // Already compacted
+                return true;
+            }
+
             const auto n_elems = last_log_index - m_start_idx + 1;
             std::vector<data_slice::second_type> data_slices(n_elems);
             for(uint64_t i{m_start_idx}; i <= last_log_index; i++) {
-- 
2.43.0


From 9cae6d192598c4247ae29f0a264fd41e4b57953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 37/63] fix: do not replace the saved raft state by a file that
 could not be written

---
 src/util/raft/state_manager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/raft/state_manager.cpp b/src/util/raft/state_manager.cpp
index 45b2ff8..fc30260 100644
--- a/src/util/raft/state_manager.cpp
+++ b/src/util/raft/state_manager.cpp
@@ -7,6 +7,7 @@
 
 #include "log_store.hpp"
 
+#include <cstdlib>
 #include <cstring>
 #include <filesystem>
 #include <fstream>
@@ -33,12 +34,13 @@ namespace cbdc::raft {
 
         const auto tmp_file = filename + ".tmp";
         std::ofstream file(tmp_file, std::ios::binary | std::ios::trunc);
-        assert(file.good());
-
         file.write(char_buf.data(),
                    static_cast<std::streamsize>(char_buf.size()));
         file.flush();
         file.close();
+        if(!file) {
+            std::exit(EXIT_FAILURE);
+        }
 
         std::filesystem::rename(tmp_file, filename);
     }
-- 
2.43.0


From 51bc69c4b6a749a875b9b55ac2e8b97a6170964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 38/63] fix: do not publish an atomizer snapshot that could not
 be written

---
 src/uhs/atomizer/atomizer/state_machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uhs/atomizer/atomizer/state_machine.cpp b/src/uhs/atomizer/atomizer/state_machine.cpp
index 6ebc000..8b28920 100644
--- a/src/uhs/atomizer/atomizer/state_machine.cpp
+++ b/src/uhs/atomizer/atomizer/state_machine.cpp
@@ -174,6 +174,9 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss) {
+                std::exit(EXIT_FAILURE);
+            }
 
             auto path = get_snapshot_path(s.get_last_log_idx());
             auto err = std::error_code();
@@ -240,6 +243,9 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss) {
+                std::exit(EXIT_FAILURE);
+            }
 
             auto err = std::error_code();
             std::filesystem::rename(tmp_path, path, err);
-- 
2.43.0


From e52e65449f9094a7c31fa3fa6e5fe76c5b9667d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 39/63] fix: stop a locking shard client without destroying the
 RPC client other threads use

---
 src/uhs/twophase/locking_shard/client.cpp | 4 +++-
 src/util/rpc/tcp_client.hpp               | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/client.cpp b/src/uhs/twophase/locking_shard/client.cpp
index bfcb9a5..c3b9a5c 100644
--- a/src/uhs/twophase/locking_shard/client.cpp
+++ b/src/uhs/twophase/locking_shard/client.cpp
@@ -70,6 +70,8 @@ namespace cbdc::locking_shard::rpc {
 
     void client::stop() {
         m_running = false;
-        m_client.reset();
+        // Another thread may be waiting for a response, so only the destructor
+        // destroys the client
+        m_client->stop();
     }
 }
diff --git a/src/util/rpc/tcp_client.hpp b/src/util/rpc/tcp_client.hpp
index 5a37314..9226346 100644
--- a/src/util/rpc/tcp_client.hpp
+++ b/src/util/rpc/tcp_client.hpp
@@ -38,6 +38,13 @@ namespace cbdc::rpc {
         /// Destructor. Disconnects from the RPC servers and stops the response
         /// handler thread.
         ~tcp_client() override {
+            stop();
+        }
+
+        /// Disconnects from the servers and answers all outstanding requests
+        /// without a response. Other threads may still be using the client;
+        /// requests issued from now on fail.
+        void stop() {
             m_net.close();
             if(m_handler_thread.joinable()) {
                 m_handler_thread.join();
-- 
2.43.0


From 33593e3e752467ab184ca24f96d8b370d458acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 40/63] fix: watchtower client destructors neither join
 unstarted threads nor hang

---
 src/uhs/atomizer/watchtower/client.cpp | 10 ++++++++--
 src/uhs/atomizer/watchtower/client.hpp |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/client.cpp b/src/uhs/atomizer/watchtower/client.cpp
index 357215e..15a607e 100644
--- a/src/uhs/atomizer/watchtower/client.cpp
+++ b/src/uhs/atomizer/watchtower/client.cpp
@@ -16,7 +16,9 @@ namespace cbdc::watchtower {
 
     blocking_client::~blocking_client() {
         m_network.close();
-        m_client_thread.join();
+        if(m_client_thread.joinable()) {
+            m_client_thread.join();
+        }
     }
 
     auto blocking_client::init() -> bool {
@@ -78,11 +80,15 @@ namespace cbdc::watchtower {
     async_client::~async_client() {
         m_handler_running = false;
         m_network.close();
+        // The handler thread may be waiting for a response
+        m_res_q.clear();
 
         if(m_handler_thread.joinable()) {
             m_handler_thread.join();
         }
-        m_client_thread.join();
+        if(m_client_thread.joinable()) {
+            m_client_thread.join();
+        }
     }
 
     auto async_client::init() -> bool {
diff --git a/src/uhs/atomizer/watchtower/client.hpp b/src/uhs/atomizer/watchtower/client.hpp
index f178cd1..434b33e 100644
--- a/src/uhs/atomizer/watchtower/client.hpp
+++ b/src/uhs/atomizer/watchtower/client.hpp
@@ -105,7 +105,7 @@ namespace cbdc::watchtower {
         cbdc::network::connection_manager m_network;
         std::thread m_client_thread;
         std::thread m_handler_thread;
-        bool m_handler_running{false};
+        std::atomic_bool m_handler_running{false};
         blocking_queue<std::shared_ptr<response>> m_res_q;
         status_update_response_handler_t m_su_handler;
         best_block_height_handler_t m_bbh_handler;
-- 
2.43.0


From e718d073cc78b438d7feed33225dcf5337a89b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 41/63] fix: register RPC handlers before the server listens

---
 src/parsec/runtime_locking_shard/controller.cpp |  9 +++++----
 src/uhs/atomizer/sentinel/controller.cpp        | 11 ++++++-----
 src/uhs/twophase/coordinator/controller.cpp     |  9 +++++----
 src/uhs/twophase/locking_shard/controller.cpp   | 11 ++++++-----
 src/uhs/twophase/sentinel_2pc/controller.cpp    | 11 ++++++-----
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/controller.cpp b/src/parsec/runtime_locking_shard/controller.cpp
index 65e5e49..1209ae6 100644
--- a/src/parsec/runtime_locking_shard/controller.cpp
+++ b/src/parsec/runtime_locking_shard/controller.cpp
@@ -103,15 +103,16 @@ namespace cbdc::parsec::runtime_locking_shard {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_server_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
-
+        // Register the request handler before requests can arrive
+        auto& listener = *rpc_server;
         m_server = std::make_unique<decltype(m_server)::element_type>(
             m_logger,
             m_shard,
             m_raft_client,
             std::move(rpc_server));
+        if(!listener.init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
 
         m_logger->info("Recovered shard and started RPC server");
     }
diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index d05164e..70109d0 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -71,14 +71,15 @@ namespace cbdc::sentinel {
         auto rpc_server = std::make_unique<
             cbdc::rpc::tcp_server<cbdc::rpc::async_server<request, response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
-
+        // Register the request handler before requests can arrive
+        auto& listener = *rpc_server;
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
+        if(!listener.init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
 
         return true;
     }
diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 6a4cb17..da6f889 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -645,13 +645,14 @@ namespace cbdc::coordinator {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_handler_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
-
+        // Register the request handler before requests can arrive
+        auto& listener = *rpc_server;
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
+        if(!listener.init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
     }
 
     void controller::quit() {
diff --git a/src/uhs/twophase/locking_shard/controller.cpp b/src/uhs/twophase/locking_shard/controller.cpp
index 8b961f7..4960408 100644
--- a/src/uhs/twophase/locking_shard/controller.cpp
+++ b/src/uhs/twophase/locking_shard/controller.cpp
@@ -98,15 +98,16 @@ namespace cbdc::locking_shard {
             cbdc::rpc::blocking_tcp_server<rpc::status_request,
                                            rpc::status_response>>(
             m_opts.m_locking_shard_readonly_endpoints[m_shard_id][m_node_id]);
-        if(!status_rpc_server->init()) {
-            m_logger->error("Failed to start status RPC server");
-            return false;
-        }
-
+        // Register the request handler before requests can arrive
+        auto& listener = *status_rpc_server;
         m_status_server
             = std::make_unique<decltype(m_status_server)::element_type>(
                 m_shard,
                 std::move(status_rpc_server));
+        if(!listener.init()) {
+            m_logger->error("Failed to start status RPC server");
+            return false;
+        }
 
         return true;
     }
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index bae45c2..63bab03 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -83,14 +83,15 @@ namespace cbdc::sentinel_2pc {
             cbdc::rpc::async_server<cbdc::sentinel::request,
                                     cbdc::sentinel::response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
-
+        // Register the request handler before requests can arrive
+        auto& listener = *rpc_server;
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
+        if(!listener.init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
 
         return true;
     }
-- 
2.43.0


From c9563249c9698756ba368438694f304c0fc29be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 42/63] fix: a wallet that drops a coin also drops it from the
 spend queue

---
 src/uhs/transaction/wallet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..ba47ee3 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -228,6 +228,9 @@ namespace cbdc {
             const auto erased = m_utxos_set.erase(inp) > 0;
             if(erased) {
                 m_balance -= inp.m_prevout_data.m_value;
+                m_spend_queue.remove_if([&](const input& queued) {
+                    return queued.m_prevout == inp.m_prevout;
+                });
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From c5ff967d1cfe367c4a4c07d5efa1004105a5a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 43/63] fix: wallet files are replaced atomically and truncated
 files rejected

---
 src/uhs/transaction/wallet.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index ba47ee3..4eb24be 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -11,6 +11,7 @@
 #include "util/serialization/istream_serializer.hpp"
 #include "util/serialization/ostream_serializer.hpp"
 
+#include <filesystem>
 #include <secp256k1_schnorrsig.h>
 
 namespace cbdc {
@@ -308,7 +309,9 @@ namespace cbdc {
     }
 
     void transaction::wallet::save(const std::string& wallet_file) const {
-        std::ofstream wal_file(wallet_file,
+        // Replace the wallet only once the new one is written completely
+        const auto tmp_file = wallet_file + ".tmp";
+        std::ofstream wal_file(tmp_file,
                                std::ios::binary | std::ios::trunc
                                    | std::ios::out);
         if(!wal_file.good()) {
@@ -327,6 +330,12 @@ namespace cbdc {
             std::shared_lock<std::shared_mutex> lu(m_utxos_mut);
             ser << m_utxos_set;
         }
+
+        wal_file.close();
+        if(!wal_file.good()) {
+            std::exit(EXIT_FAILURE);
+        }
+        std::filesystem::rename(tmp_file, wallet_file);
     }
 
     void transaction::wallet::load(const std::string& wallet_file) {
@@ -363,6 +372,11 @@ namespace cbdc {
                     m_spend_queue.push_back(utxo);
                 }
             }
+
+            if(!deser) {
+                // Saving what could be read would lose the rest
+                std::exit(EXIT_FAILURE);
+            }
         }
     }
 
-- 
2.43.0


From 1c087ef441aab883ed333492eb2437a7ba6c085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 44/63] fix: wallet key generator is no longer used under a
 shared lock

---
 src/uhs/transaction/wallet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 4eb24be..49f4a75 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -127,7 +127,7 @@ namespace cbdc {
         {
             // TODO: add config parameter where 0 = never reuse.
             static constexpr size_t max_keys = 10000;
-            std::shared_lock<std::shared_mutex> lg(m_keys_mut);
+            std::unique_lock<std::shared_mutex> lg(m_keys_mut);
             if(m_keys.size() > max_keys) {
                 std::uniform_int_distribution<size_t> keyshuffle_dist(
                     0,
-- 
2.43.0


From 5cbc08737755318ccb818dbdaa0b2863a070a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 45/63] fix: decoding a hash never writes past its end

---
 src/util/common/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/common/hash.cpp b/src/util/common/hash.cpp
index f75dead..a481b5b 100644
--- a/src/util/common/hash.cpp
+++ b/src/util/common/hash.cpp
@@ -24,9 +24,9 @@ namespace cbdc {
     }
 
     auto hash_from_hex(const std::string& val) -> hash_t {
-        hash_t ret;
+        hash_t ret{};
 
-        for(size_t i = 0; i < val.size(); i += 2) {
+        for(size_t i = 0; i < val.size() && i / 2 < ret.size(); i += 2) {
             unsigned int v{};
             std::stringstream s;
             s << std::hex << val.substr(i, 2);
-- 
2.43.0


From a63582284e8a9decb4fc3d36f726262906857d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 46/63] fix: reject sentinel keys of the wrong length

---
 src/util/common/config.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 02811f4..682d7f2 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -434,6 +434,11 @@ namespace cbdc::config {
             const auto sentinel_private_key
                 = cfg.get_string(sentinel_private_key_key);
             if(sentinel_private_key.has_value()) {
+                if(sentinel_private_key.value().size()
+                   != sizeof(privkey_t) * 2) {
+                    return "Invalid private key length for sentinel "
+                         + std::to_string(i);
+                }
                 auto key = hash_from_hex(sentinel_private_key.value());
                 opts.m_sentinel_private_keys[i] = key;
             }
@@ -450,6 +455,10 @@ namespace cbdc::config {
                      + std::to_string(i) + " (" + sentinel_public_key_key
                      + ")";
             }
+            if(sentinel_public_key.value().size() != sizeof(pubkey_t) * 2) {
+                return "Invalid public key length for sentinel "
+                     + std::to_string(i);
+            }
             auto key = hash_from_hex(sentinel_public_key.value());
             opts.m_sentinel_public_keys.insert(key);
         }
-- 
2.43.0


From 963d780c9fc736502261991cda4052043f476bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 47/63] fix: reject shard ranges that are not one-byte prefixes

---
 src/util/common/config.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 682d7f2..7f90518 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -331,6 +331,11 @@ namespace cbdc::config {
                 return "No range end specified for shard " + std::to_string(i)
                      + " (" + end_key + ")";
             }
+            constexpr auto max_prefix = std::numeric_limits<uint8_t>::max();
+            if(*range_start > max_prefix || *range_end > max_prefix) {
+                return "Range of shard " + std::to_string(i)
+                     + " is not a range of one-byte prefixes";
+            }
             const auto shard_range
                 = std::make_pair(static_cast<uint8_t>(*range_start),
                                  static_cast<uint8_t>(*range_end));
-- 
2.43.0


From baee49cbd3c7321a85db30b367ffce0de64104b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 48/63] fix: from_hex rejects characters that are not
 hexadecimal digits

---
 src/util/common/buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index b85491d..9bfb11a 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -87,6 +87,10 @@ namespace cbdc {
         if(hex.empty() || ((hex.size() % 2) != 0) || (hex.size() > max_size)) {
             return std::nullopt;
         }
+        if(hex.find_first_not_of("0123456789abcdefABCDEF")
+           != std::string::npos) {
+            return std::nullopt;
+        }
 
         auto ret = cbdc::buffer();
 
-- 
2.43.0


From 2d2814d4f366ddd68feeefff0fca7382a6b48df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 49/63] fix: watchtower daemon rejects an identifier that is
 not configured

---
 src/uhs/atomizer/watchtower/watchtowerd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/watchtowerd.cpp b/src/uhs/atomizer/watchtower/watchtowerd.cpp
index cfdbec1..f4a32ce 100644
--- a/src/uhs/atomizer/watchtower/watchtowerd.cpp
+++ b/src/uhs/atomizer/watchtower/watchtowerd.cpp
@@ -30,6 +30,11 @@ auto main(int argc, char** argv) -> int {
     }
     auto opts = std::get<cbdc::config::options>(cfg_or_err);
 
+    if(opts.m_watchtower_client_endpoints.size() <= watchtower_id) {
+        std::cerr << "Watchtower ID not in config file" << std::endl;
+        return -1;
+    }
+
     auto logger = std::make_shared<cbdc::logging::log>(
         opts.m_watchtower_loglevels[watchtower_id]);
 
-- 
2.43.0


From 15b88f20468b2e3a6b2d0a36705f7b13a5388562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 50/63] fix: nodes check their identifiers against their own
 cluster

---
 src/uhs/twophase/coordinator/controller.cpp   | 27 +++++++++----------
 src/uhs/twophase/locking_shard/controller.cpp | 16 +++++------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index da6f889..7be080b 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -51,36 +51,33 @@ namespace cbdc::coordinator {
             return false;
         }
 
-        if(m_coordinator_id > (m_opts.m_coordinator_endpoints.size() - 1)) {
+        if(m_coordinator_id >= m_opts.m_coordinator_endpoints.size()) {
             m_logger->error("The coordinator ID is out of range "
                             "of the m_coordinator_endpoints vector.");
             return false;
         }
 
-        for(const auto& vec : m_opts.m_coordinator_endpoints) {
-            if(m_node_id > (vec.size() - 1)) {
-                m_logger->error("The node ID is out of range "
-                                "of the m_coordinator_endpoints vector.");
-                return false;
-            }
+        if(m_node_id
+           >= m_opts.m_coordinator_endpoints[m_coordinator_id].size()) {
+            m_logger->error("The node ID is out of range "
+                            "of the m_coordinator_endpoints vector.");
+            return false;
         }
 
         m_handler_endpoint
             = m_opts.m_coordinator_endpoints[m_coordinator_id][m_node_id];
 
-        if(m_coordinator_id
-           > (m_opts.m_coordinator_raft_endpoints.size() - 1)) {
+        if(m_coordinator_id >= m_opts.m_coordinator_raft_endpoints.size()) {
             m_logger->error("The coordinator ID is out of range "
                             "of the m_coordinator_raft_endpoints vector.");
             return false;
         }
 
-        for(const auto& vec : m_opts.m_coordinator_raft_endpoints) {
-            if(m_node_id > (vec.size() - 1)) {
-                m_logger->error("The node ID is out of range "
-                                "of the m_coordinator_raft_endpoints vector.");
-                return false;
-            }
+        if(m_node_id
+           >= m_opts.m_coordinator_raft_endpoints[m_coordinator_id].size()) {
+            m_logger->error("The node ID is out of range "
+                            "of the m_coordinator_raft_endpoints vector.");
+            return false;
         }
 
         m_raft_serv = std::make_shared<raft::node>(
diff --git a/src/uhs/twophase/locking_shard/controller.cpp b/src/uhs/twophase/locking_shard/controller.cpp
index 4960408..9448035 100644
--- a/src/uhs/twophase/locking_shard/controller.cpp
+++ b/src/uhs/twophase/locking_shard/controller.cpp
@@ -46,7 +46,7 @@ namespace cbdc::locking_shard {
         params.snapshot_distance_ = 0; // TODO: implement snapshots
         params.max_append_size_ = static_cast<int>(m_opts.m_raft_max_batch);
 
-        if(m_shard_id > (m_opts.m_shard_ranges.size() - 1)) {
+        if(m_shard_id >= m_opts.m_shard_ranges.size()) {
             m_logger->error(
                 "The shard ID is out of range of the m_shard_ranges vector.");
             return false;
@@ -61,19 +61,17 @@ namespace cbdc::locking_shard {
 
         m_shard = m_state_machine->get_shard_instance();
 
-        if(m_shard_id > (m_opts.m_locking_shard_raft_endpoints.size() - 1)) {
+        if(m_shard_id >= m_opts.m_locking_shard_raft_endpoints.size()) {
             m_logger->error("The shard ID is out of range "
                             "of the m_locking_shard_raft_endpoints vector.");
             return false;
         }
 
-        for(const auto& vec : m_opts.m_locking_shard_raft_endpoints) {
-            if(m_node_id > (vec.size() - 1)) {
-                m_logger->error(
-                    "The node ID is out of range "
-                    "of the m_locking_shard_raft_endpoints vector.");
-                return false;
-            }
+        if(m_node_id
+           >= m_opts.m_locking_shard_raft_endpoints[m_shard_id].size()) {
+            m_logger->error("The node ID is out of range "
+                            "of the m_locking_shard_raft_endpoints vector.");
+            return false;
         }
 
         m_raft_serv = std::make_shared<raft::node>(
-- 
2.43.0


From 48f6c220bc98627e1df8a7448446277803026e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 51/63] fix: shard daemon requires a node identifier

---
 src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp b/src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp
index fe0b841..91943f1 100644
--- a/src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp
+++ b/src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp
@@ -24,7 +24,9 @@ auto main(int argc, char** argv) -> int {
         return 1;
     }
 
-    if(cfg->m_shard_endpoints[cfg->m_component_id].size() <= *cfg->m_node_id) {
+    if(!cfg->m_node_id.has_value()
+       || cfg->m_shard_endpoints[cfg->m_component_id].size()
+              <= *cfg->m_node_id) {
         log->error("No endpoint for node id");
         return 1;
     }
-- 
2.43.0


From 4d05304dc91441218c55e0666fe123f1cb67ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 52/63] fix: atomizer client settles every confirmed
 transaction

---
 src/uhs/client/atomizer_client.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 04274e8..6130555 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -59,9 +59,14 @@ namespace cbdc {
         m_logger->debug("Checking watchtower state...");
 
         auto res = m_wc.request_status_update(req);
+        if(!res) {
+            m_logger->error("No response from the watchtower");
+            return false;
+        }
 
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
+            bool confirmed{false};
             for(const auto& s : uhs_states) {
                 if((s.status() != cbdc::watchtower::search_status::unspent)
                    && (s.status() != cbdc::watchtower::search_status::spent)) {
@@ -71,15 +76,14 @@ namespace cbdc {
                                    to_string(s.uhs_id()),
                                    ", status:",
                                    static_cast<uint32_t>(s.status()));
-                    success = false;
                     continue;
                 }
+                confirmed = true;
                 break;
             }
-            if(!success) {
-                continue;
+            if(!confirmed || !confirm_transaction(tx_id)) {
+                success = false;
             }
-            success = confirm_transaction(tx_id);
         }
 
         return success;
@@ -95,7 +99,12 @@ namespace cbdc {
             ctx.m_attestations.insert(att);
         }
         msg.m_tx = std::move(ctx);
-        msg.m_block_height = m_wc.request_best_block_height()->height();
+        auto best_height = m_wc.request_best_block_height();
+        if(!best_height) {
+            m_logger->error("No response from the watchtower");
+            return false;
+        }
+        msg.m_block_height = best_height->height();
         return m_atomizer_network.send_to_one(atomizer::request{msg});
     }
 }
-- 
2.43.0


From f257e60f0dd43d5546041fcc5cc6e64168309731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 53/63] fix: reject addresses without data

---
 src/uhs/client/client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 4b3bc60..2c6b493 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -43,10 +43,10 @@ namespace cbdc {
                 enc_data.end());
 
             auto pubkey = cbdc::hash_t();
-            if(data[0]
-                   != static_cast<uint8_t>(
-                       cbdc::client::address_type::public_key)
-               || data.size() != pubkey.size() + 1) {
+            if(data.size() != pubkey.size() + 1
+               || data[0]
+                      != static_cast<uint8_t>(
+                          cbdc::client::address_type::public_key)) {
                 std::cout << "Address is not a supported type" << std::endl;
                 return std::nullopt;
             }
-- 
2.43.0


From de654c30bb93c39359aaf4419303fb578f1f01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 54/63] fix: contract results with number keys do not end the
 agent

---
 src/parsec/agent/runners/lua/impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/lua/impl.cpp b/src/parsec/agent/runners/lua/impl.cpp
index 4c79dc1..4909259 100644
--- a/src/parsec/agent/runners/lua/impl.cpp
+++ b/src/parsec/agent/runners/lua/impl.cpp
@@ -102,7 +102,12 @@ namespace cbdc::parsec::agent::runner {
 
         lua_pushnil(m_state.get());
         while(lua_next(m_state.get(), -2) != 0) {
-            auto key_buf = get_stack_string(-2);
+            // Reading a number as a string converts it in place, which
+            // lua_next does not survive when it is the key
+            auto key_buf = std::optional<buffer>();
+            if(lua_type(m_state.get(), -2) == LUA_TSTRING) {
+                key_buf = get_stack_string(-2);
+            }
             if(!key_buf.has_value()) {
                 m_log->error("Result key is not a string");
                 m_result_callback(error_code::result_key_type);
-- 
2.43.0


From 0547f0db3bccce49011d6e5ce3b92f280fdbc7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 55/63] fix: JSON-RPC payloads that are not objects are refused

---
 src/util/rpc/http/json_rpc_http_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index db6ee30..ad6e9fc 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -223,6 +223,11 @@ namespace cbdc::rpc {
             return false;
         }
 
+        // Only objects have members, asking others ends the process
+        if(!req.isObject()) {
+            return false;
+        }
+
         if(!req.isMember("method")) {
             return false;
         }
-- 
2.43.0


From 9248e7c43ec370fcbe6710868f731dff03050fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 56/63] fix: JSON-RPC client repeats broken calls from the
 start and answers every call

---
 src/util/rpc/http/json_rpc_http_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/rpc/http/json_rpc_http_client.cpp b/src/util/rpc/http/json_rpc_http_client.cpp
index 67fb5f1..f39d96e 100644
--- a/src/util/rpc/http/json_rpc_http_client.cpp
+++ b/src/util/rpc/http/json_rpc_http_client.cpp
@@ -172,14 +172,18 @@ namespace cbdc::rpc {
                     m_log->warn("CURL error:",
                                 curl_easy_strerror(m->data.result));
                     auto* handle = m->easy_handle;
+                    // Forget the part of the response received so far
+                    tf->m_result = std::stringstream();
                     if(curl_multi_remove_handle(m_multi_handle, handle)
                        != CURLM_OK) {
                         m_log->error("Error removing multi handle");
+                        tf->m_cb(std::nullopt);
                         return false;
                     }
                     if(curl_multi_add_handle(m_multi_handle, handle)
                        != CURLM_OK) {
                         m_log->error("Error adding multi handle");
+                        tf->m_cb(std::nullopt);
                         return false;
                     }
                     m_transfers.insert(std::move(it));
-- 
2.43.0


From 7b319721f393d831a5c1f5aa4436c89504f5afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 57/63] fix: EVM account code queries check the size of the
 address

---
 src/parsec/agent/runners/evm/impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index aa4c682..9003992 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -392,6 +392,11 @@ namespace cbdc::parsec::agent::runner {
 
     auto evm_runner::run_get_account_code() -> bool {
         auto addr = evmc::address();
+        if(m_param.size() != sizeof(addr.bytes)) {
+            m_log->error("Account address has a wrong size");
+            m_result_callback(error_code::function_load);
+            return true;
+        }
         std::memcpy(addr.bytes, m_param.data(), m_param.size());
         auto key = make_buffer(code_key{addr});
         auto success = m_try_lock_callback(
-- 
2.43.0


From a933c906488413de6b3403407afffbb2a70a5251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 58/63] fix: EVM block and log queries have a host and are
 always answered

---
 src/parsec/agent/runners/evm/impl.cpp | 15 +++++++++++++++
 src/parsec/agent/runners/evm/impl.hpp |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index 9003992..b613fa5 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -144,6 +144,15 @@ namespace cbdc::parsec::agent::runner {
         return blk;
     }
 
+    void evm_runner::make_read_host() {
+        m_host = std::make_unique<evm_host>(m_log,
+                                            m_try_lock_callback,
+                                            evmc_tx_context(),
+                                            m_tx,
+                                            true,
+                                            m_ticket_number);
+    }
+
     auto evm_runner::run_get_block() -> bool {
         // m_param contains the raw serialized block number - need to decrypt
         // that first and then hash it to get to the key the
@@ -154,6 +163,7 @@ namespace cbdc::parsec::agent::runner {
             return false;
         }
         auto tn = to_uint64(maybe_tn.value());
+        make_read_host();
         auto tn_key = m_host->ticket_number_key(tn);
 
         auto success = m_try_lock_callback(
@@ -225,6 +235,7 @@ namespace cbdc::parsec::agent::runner {
             return false;
         }
         auto qry = maybe_qry.value();
+        make_read_host();
 
         // First, determine the keys to query for log existence
         auto keys = std::vector<cbdc::buffer>();
@@ -241,6 +252,10 @@ namespace cbdc::parsec::agent::runner {
 
         auto log_indexes_mut = std::make_shared<std::mutex>();
         auto log_indexes = std::make_shared<std::vector<evm_log_index>>();
+        if(keys.empty()) {
+            handle_complete_get_logs(qry, log_indexes_mut, log_indexes);
+            return true;
+        }
         auto acquired = std::make_shared<std::atomic<size_t>>();
         for(auto& key : keys) {
             auto success = m_try_lock_callback(
diff --git a/src/parsec/agent/runners/evm/impl.hpp b/src/parsec/agent/runners/evm/impl.hpp
index 16c0a6c..70c1c78 100644
--- a/src/parsec/agent/runners/evm/impl.hpp
+++ b/src/parsec/agent/runners/evm/impl.hpp
@@ -92,6 +92,7 @@ namespace cbdc::parsec::agent::runner {
         auto run_execute_transaction(const evmc::address& from,
                                      bool is_readonly_run) -> bool;
         auto run_get_account() -> bool;
+        void make_read_host();
         auto run_get_block() -> bool;
         auto run_get_logs() -> bool;
         auto run_get_block_number() -> bool;
-- 
2.43.0


From fcdb3ecbafb01ade644f936a1053aacc873a2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:02 +0000
Subject: [PATCH 59/63] fix: the cost of an EVM transaction cannot wrap around

---
 src/parsec/agent/runners/evm/impl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index b613fa5..a558451 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -673,6 +673,18 @@ namespace cbdc::parsec::agent::runner {
         auto total_gas_cost = m_tx.m_gas_limit * m_tx.m_gas_price;
         auto required_funds = m_tx.m_value + total_gas_cost;
 
+        // Neither the gas cost nor the required funds may wrap around: gas is
+        // a positive 64-bit number, and the price has to leave room for it
+        constexpr auto max_gas = evmc::uint256be(
+            static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
+        if(max_gas < m_tx.m_gas_limit
+           || evmc::load64be(m_tx.m_gas_price.bytes) != 0
+           || required_funds < m_tx.m_value) {
+            m_log->error("TX gas limit, gas price or value is out of range");
+            m_result_callback(error_code::exec_error);
+            return;
+        }
+
         if(from_acc.m_balance < required_funds) {
             m_log->error("From account has insufficient funds to cover gas "
                          "and tx value",
-- 
2.43.0


From d757239f7c3fad39885d305ff535f13eb07f9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 60/63] fix: EVM calls that do not succeed have no effects

---
 src/parsec/agent/runners/evm/host.cpp | 17 +++++++++++++++++
 src/parsec/agent/runners/evm/host.hpp |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 52aaf72..3bed33c 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -306,6 +306,23 @@ namespace cbdc::parsec::agent::runner {
     }
 
     auto evm_host::call(const evmc_message& msg) noexcept -> evmc::Result {
+        // A call that does not succeed has no effects
+        auto accounts = m_accounts;
+        auto account_storage = m_account_storage;
+        auto account_code = m_account_code;
+        auto logs = m_receipt.m_logs;
+        auto res = call_unchecked(msg);
+        if(res.status_code != EVMC_SUCCESS) {
+            m_accounts = std::move(accounts);
+            m_account_storage = std::move(account_storage);
+            m_account_code = std::move(account_code);
+            m_receipt.m_logs = std::move(logs);
+        }
+        return res;
+    }
+
+    auto evm_host::call_unchecked(const evmc_message& msg) noexcept
+        -> evmc::Result {
         if(msg.kind == EVMC_CREATE2 || msg.kind == EVMC_CREATE) {
             return create(msg);
         }
diff --git a/src/parsec/agent/runners/evm/host.hpp b/src/parsec/agent/runners/evm/host.hpp
index 9df41a5..1ad7906 100644
--- a/src/parsec/agent/runners/evm/host.hpp
+++ b/src/parsec/agent/runners/evm/host.hpp
@@ -204,6 +204,8 @@ namespace cbdc::parsec::agent::runner {
         [[nodiscard]] auto get_key(const cbdc::buffer& key, bool write) const
             -> std::optional<broker::value_type>;
 
+        auto call_unchecked(const evmc_message& msg) noexcept -> evmc::Result;
+
         auto create(const evmc_message& msg) noexcept -> evmc::Result;
 
         auto execute(const evmc_message& msg,
-- 
2.43.0


From a899b8a86c62e87201d9e14d8babf5f36e027b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 61/63] fix: EVM transfers from accounts that are missing do
 not end the agent

---
 src/parsec/agent/runners/evm/host.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 3bed33c..3167aa2 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -568,7 +568,11 @@ namespace cbdc::parsec::agent::runner {
         const auto* log_str = "evm_transfer";
         m_log->trace(log_str, to_hex(from), to_hex(to));
         auto maybe_acc = get_account(from, !m_is_readonly_run);
-        assert(maybe_acc.has_value());
+        if(!maybe_acc.has_value()) {
+            // The account is still being created, does not exist (dry run),
+            // or could not be locked (the transaction will be retried)
+            maybe_acc = evm_account();
+        }
         auto& acc = maybe_acc.value();
         auto val = value;
         if(evmc::is_zero(value)) {
-- 
2.43.0


From 114229e8fcbbac7ac6441e906d0691e5b6418923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 62/63] fix: client-cli does not pay another amount than the
 one it was given

---
 src/uhs/client/client-cli.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/uhs/client/client-cli.cpp b/src/uhs/client/client-cli.cpp
index 439354d..39965b4 100644
--- a/src/uhs/client/client-cli.cpp
+++ b/src/uhs/client/client-cli.cpp
@@ -15,6 +15,7 @@
 
 #include <future>
 #include <iostream>
+#include <limits>
 
 auto mint_command(cbdc::client& client, const std::vector<std::string>& args)
     -> bool {
@@ -27,6 +28,10 @@ auto mint_command(cbdc::client& client, const std::vector<std::string>& args)
 
     const auto n_outputs = std::stoull(args[5]);
     const auto output_val = std::stoul(args[6]);
+    if(output_val > std::numeric_limits<uint32_t>::max()) {
+        std::cerr << "Output value is too large" << std::endl;
+        return false;
+    }
 
     const auto mint_tx
         = client.mint(n_outputs, static_cast<uint32_t>(output_val));
@@ -71,6 +76,11 @@ auto send_command(cbdc::client& client, const std::vector<std::string>& args)
     }
 
     const auto value = std::stoul(args[5]);
+    if(value > std::numeric_limits<uint32_t>::max()) {
+        std::cerr << "Value is too large" << std::endl;
+        return false;
+    }
+
     static constexpr auto address_arg_idx = 6;
     auto pubkey = cbdc::address::decode(args[address_arg_idx]);
     if(!pubkey.has_value()) {
@@ -99,6 +109,11 @@ auto fan_command(cbdc::client& client, const std::vector<std::string>& args)
 
     const auto value = std::stoul(args[6]);
     const auto count = std::stoul(args[5]);
+    if(value > std::numeric_limits<uint32_t>::max()
+       || count > std::numeric_limits<uint32_t>::max()) {
+        std::cerr << "Value or count is too large" << std::endl;
+        return false;
+    }
 
     static constexpr auto address_arg_idx = 7;
     auto pubkey = cbdc::address::decode(args[address_arg_idx]);
-- 
2.43.0


From ee433e579f79e72e141ffcb647d29f6d3d7b493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 63/63] fix: client-cli commands check that their argument is
 there

---
 src/uhs/client/client-cli.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/uhs/client/client-cli.cpp b/src/uhs/client/client-cli.cpp
index 39965b4..d9ce630 100644
--- a/src/uhs/client/client-cli.cpp
+++ b/src/uhs/client/client-cli.cpp
@@ -159,6 +159,11 @@ void newaddress_command(cbdc::client& client) {
 auto importinput_command(cbdc::client& client,
                          const std::vector<std::string>& args) -> bool {
     static constexpr auto input_arg_idx = 5;
+    if(args.size() <= input_arg_idx) {
+        std::cerr << "Importinput requires args <input>" << std::endl;
+        return false;
+    }
+
     auto buffer = cbdc::buffer::from_hex(args[input_arg_idx]);
     if(!buffer.has_value()) {
         std::cout << "Invalid input encoding." << std::endl;
@@ -176,6 +181,12 @@ auto importinput_command(cbdc::client& client,
 
 auto confirmtx_command(cbdc::client& client,
                        const std::vector<std::string>& args) -> bool {
+    static constexpr auto min_confirmtx_arg_count = 6;
+    if(args.size() < min_confirmtx_arg_count) {
+        std::cerr << "Confirmtx requires args <tx id>" << std::endl;
+        return false;
+    }
+
     const auto tx_id = cbdc::hash_from_hex(args[5]);
     auto success = client.confirm_transaction(tx_id);
     if(!success) {
-- 
2.43.0

