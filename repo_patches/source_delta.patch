From f49664b8c3c25a3f7103d7323c87660499c6f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 01/22] fix: avoid undefined signed overflow in lf_time_add

---
 core/tag.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..fa2f8f4 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,15 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
-  // Check for overflow
-  if (res < a && b > 0) {
+  // Check for overflow before adding because signed overflow is undefined in C.
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From 423196700100ec6bf6c3e548b3952e477506cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 02/22] fix: re-check the grant conditions after waiting for
 the start time

lf_cond_wait releases the RTI mutex, so while one thread waits for a PENDING
federate another one may grant it a later tag or the federate may disconnect.
Checking before waiting could then send an earlier grant after a later one, or
write to a closed socket.
---
 core/federated/RTI/rti_remote.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..960ff7b 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -179,16 +179,17 @@ static int create_rti_server(uint16_t port, socket_type_t socket_type) {
 }
 
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
+  // sent the starting MSG_TYPE_TIMESTAMP message. Waiting releases the mutex, so the
+  // checks below have to come after it.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_TAG_ADVANCE_GRANT;
@@ -212,16 +213,17 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
 }
 
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
+  // sent the starting MSG_TYPE_TIMESTAMP message. Waiting releases the mutex, so the
+  // checks below have to come after it.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
-- 
2.43.0


From 1ffbaff782ad73fc0bc3ef01cd67124a6cca6114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:49 +0000
Subject: [PATCH 03/22] fix: vector_at returns NULL for elements that were
 never set

---
 core/utils/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/utils/vector.c b/core/utils/vector.c
index 2124f12..8b06f22 100644
--- a/core/utils/vector.c
+++ b/core/utils/vector.c
@@ -102,6 +102,7 @@ void* vector_pop(vector_t* v) {
  */
 void** vector_at(vector_t* v, size_t idx) {
   void** vector_position = v->start + idx;
+  size_t old_size = v->next - v->start;
   if ((vector_position + 1) > v->next) {
     v->next = vector_position + 1;
   }
@@ -114,6 +115,10 @@ void** vector_at(vector_t* v, size_t idx) {
     }
     vector_resize(v, new_size);
   }
+  // Elements that have just come into existence have not been set.
+  for (size_t i = old_size; i <= idx; i++) {
+    v->start[i] = NULL;
+  }
   // Note: Can't re-use vector_position because v->start can move after
   // resizing.
   return v->start + idx;
-- 
2.43.0


From 02cd116159867cd8d05d2f02110f02c34050824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:02 +0000
Subject: [PATCH 04/22] fix: record a multiport channel once per tag even if it
 is written repeatedly

---
 core/reactor.c                   | 4 +++-
 core/threaded/reactor_threaded.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..7d0f2ef 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -53,10 +53,12 @@ void lf_set_present(lf_port_base_t* port) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
   env->is_present_fields_abbreviated_size++;
+  bool already_present = *is_present_field;
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  // A channel that is written more than once at the same tag is recorded only once.
+  if (!already_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = port->sparse_record->size++;
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..d96b25e 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -180,10 +180,12 @@ void lf_set_present(lf_port_base_t* port) {
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
   }
+  bool already_present = *is_present_field;
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  // A channel that is written more than once at the same tag is recorded only once.
+  if (!already_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = (size_t)lf_atomic_fetch_add(&port->sparse_record->size, 1);
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
-- 
2.43.0


From 43b22ef4f331a451925ac58c4a9d7e3d35561714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 05/22] fix: forwarding a message re-checks the destination
 after waiting for the start time

---
 core/federated/RTI/rti_remote.c | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 960ff7b..7b5357b 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -303,9 +303,18 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message. Waiting releases the mutex, so the
+  // check below has to come after it.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning
   // and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
@@ -323,13 +332,6 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 
   LF_PRINT_LOG("RTI forwarding port absent message for port %u to federate %u.", reactor_port_id, federate_id);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_PORT_ABS, federate_id, &tag);
   }
@@ -388,9 +390,18 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message. Waiting releases the mutex, so the
+  // check below has to come after it.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning,
   // remove the message from the socket and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
     LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
@@ -420,13 +431,6 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   LF_PRINT_DEBUG("RTI forwarding message to port %d of federate %hu of length %zu.", reactor_port_id, federate_id,
                  length);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
-- 
2.43.0


From 5ea19e7f84e3b73adf44f73f5839ba60008aab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 06/22] fix: a departing federate no longer blocks the
 agreement on a stop tag

---
 core/federated/RTI/rti_remote.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 7b5357b..c2738ac 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1012,6 +1012,11 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // If a stop is being negotiated, this federate will no longer reply.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1065,6 +1070,11 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // If a stop is being negotiated, this federate will no longer reply.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1147,6 +1157,10 @@ void* federate_info_thread_TCP(void* fed) {
   // Prevent multiple threads from closing the same socket at the same time.
   LF_MUTEX_LOCK(&rti_mutex);
   close(my_fed->socket); //  from unistd.h
+  // If a stop is being negotiated, this federate will no longer reply.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
   LF_MUTEX_UNLOCK(&rti_mutex);
   return NULL;
 }
-- 
2.43.0


From 9ee8e8e14bf05f3364f3da583e4ce7479dc8b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 07/22] fix: refuse federation IDs that are only a prefix, and
 keep the ID of a refused federate free

---
 core/federated/RTI/rti_remote.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index c2738ac..ee0783a 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1249,7 +1249,8 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
     // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    if (federation_id_length != strlen(rti_remote->federation_id) ||
+        strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
@@ -1313,6 +1314,8 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
   }
   LF_MUTEX_LOCK(&rti_mutex);
   if (write_to_socket_close_on_error(&fed->socket, 1, &ack_message)) {
+    // The federate has not joined. Its ID can be used again.
+    fed->enclave.state = NOT_CONNECTED;
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_error("RTI failed to write MSG_TYPE_ACK message to federate %d.", fed_id);
     return -1;
@@ -1606,6 +1609,10 @@ void lf_connect_to_federates(int socket_descriptor) {
       lf_thread_create(&(fed->thread_id), federate_info_thread_TCP, fed);
     } else {
       // Received message was rejected. Try again.
+      if (fed_id >= 0) {
+        // The federate has not joined. Its ID can be used again.
+        rti_remote->base.scheduling_nodes[fed_id]->state = NOT_CONNECTED;
+      }
       i--;
     }
   }
-- 
2.43.0


From 2ca995f64f8b051b2bed8afbda9d03e93ff07e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:53 +0000
Subject: [PATCH 08/22] fix: release a payload exactly once on every failure
 path of scheduling

---
 core/reactor_common.c | 23 +++++++++++------------
 lib/schedule.c        | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..8f1055d 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -471,10 +471,9 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag) {
 }
 
 void lf_replace_token(event_t* event, lf_token_t* token) {
-  if (event->token != token) {
-    // Free the existing token, if any.
-    _lf_done_using(event->token);
-  }
+  // Free the existing token, if any. If it is the same token, this releases
+  // the reference that the event already holds.
+  _lf_done_using(event->token);
   // Replace the token with ours.
   event->token = token;
 }
@@ -485,17 +484,18 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
   LF_PRINT_DEBUG("_lf_schedule_at_tag() called with tag " PRINTF_TAG " at tag " PRINTF_TAG ".", tag.time - start_time,
                  tag.microstep, current_logical_tag.time - start_time, current_logical_tag.microstep);
-  if (lf_tag_compare(tag, current_logical_tag) <= 0 && env->execution_started) {
-    lf_print_warning("_lf_schedule_at_tag(): requested to schedule an event at the current or past tag.");
-    return -1;
-  }
-
   // Increment the reference count of the token.
   if (token != NULL) {
     token->ref_count++;
     LF_PRINT_DEBUG("_lf_schedule_at_tag: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
   }
 
+  if (lf_tag_compare(tag, current_logical_tag) <= 0 && env->execution_started) {
+    lf_print_warning("_lf_schedule_at_tag(): requested to schedule an event at the current or past tag.");
+    _lf_done_using(token);
+    return -1;
+  }
+
   // Do not schedule events if the tag is after the stop tag
   if (lf_is_tag_after_stop_tag(env, tag)) {
     lf_print_warning("_lf_schedule_at_tag: event time is past the timeout. Discarding event.");
@@ -525,9 +525,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   if (found != NULL) {
     switch (trigger->policy) {
     case drop:
-      if (found->token != token) {
-        _lf_done_using(token);
-      }
+      _lf_done_using(token);
       lf_recycle_event(env, e);
       return (0);
       break;
@@ -546,6 +544,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..a91a18a 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -110,14 +110,6 @@ bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
 trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, interval_t extra_delay,
                                      lf_token_t* token) {
   assert(env != GLOBAL_ENVIRONMENT);
-  if (lf_is_tag_after_stop_tag(env, env->current_tag)) {
-    // If schedule is called after stop_tag
-    // This is a critical condition.
-    _lf_done_using(token);
-    lf_print_warning("lf_schedule() called after stop tag.");
-    return 0;
-  }
-
   if (extra_delay < 0LL) {
     lf_print_warning("schedule called with a negative extra_delay " PRINTF_TIME ". Replacing with zero.", extra_delay);
     extra_delay = 0LL;
@@ -132,6 +124,16 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
   }
 
+  if (lf_is_tag_after_stop_tag(env, env->current_tag)) {
+    // If schedule is called after stop_tag
+    // This is a critical condition.
+    // Doing this after incrementing the reference count ensures that only
+    // the reference of the discarded event is released.
+    _lf_done_using(token);
+    lf_print_warning("lf_schedule() called after stop tag.");
+    return 0;
+  }
+
   // The trigger argument could be null, meaning that nothing is triggered.
   // Doing this after incrementing the reference count ensures that the
   // payload will be freed, if there is one.
@@ -212,6 +214,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
         // Scheduling an event will incur a microstep
         // after the stop tag.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From 11815e7925cbaa38e3cc62a91c84b65771dbdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:53 +0000
Subject: [PATCH 09/22] fix: a physical action is never scheduled at or before
 the current tag

---
 lib/schedule.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index a91a18a..5ad76d6 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -173,6 +173,10 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_physical() + delay;
     intended_tag.microstep = 0;
+    // Physical time need not exceed the current logical time (e.g., in fast mode).
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = (tag_t){.time = env->current_tag.time, .microstep = env->current_tag.microstep + 1};
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From 0a6763a27577924822b58f0b0dfec4d4630d07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:53 +0000
Subject: [PATCH 10/22] fix: saturate instead of overflowing when scheduling
 with large delays

---
 lib/schedule.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 5ad76d6..af4656b 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -149,7 +149,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // Add the offset if this is not a timer because, in that case,
   // it is the minimum delay.
   if (!trigger->is_timer) {
-    delay += trigger->offset;
+    delay = lf_time_add(delay, trigger->offset);
   }
   tag_t intended_tag = lf_delay_tag(env->current_tag, delay);
 
@@ -171,7 +171,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // modify the intended time.
   if (trigger->is_physical) {
     // Get the current physical time and assign it as the intended time.
-    intended_tag.time = lf_time_physical() + delay;
+    intended_tag.time = lf_time_add(lf_time_physical(), delay);
     intended_tag.microstep = 0;
     // Physical time need not exceed the current logical time (e.g., in fast mode).
     if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
@@ -234,7 +234,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // scheduled event. It determines the
     // earliest time at which the new event can be scheduled.
     // Check to see whether the event is too early.
-    instant_t earliest_time = trigger->last_tag.time + min_spacing;
+    instant_t earliest_time = lf_time_add(trigger->last_tag.time, min_spacing);
     LF_PRINT_DEBUG("There is a previously scheduled event; earliest possible time "
                    "with min spacing: " PRINTF_TIME,
                    earliest_time);
-- 
2.43.0


From 367ddce5abb93782036605126e6f1a0896b96715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:53 +0000
Subject: [PATCH 11/22] fix: a deferred event scheduled at a tag skips every
 taken microstep

---
 core/reactor_common.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 8f1055d..567d9b1 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -537,10 +537,13 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       return 0;
       break;
     default:
-      // Adding a microstep to the original
-      // intended tag.
-      tag.microstep++;
-      e->base.tag = tag;
+      // Adding microsteps to the original
+      // intended tag until there is no conflict.
+      while (found != NULL) {
+        tag.microstep++;
+        e->base.tag = tag;
+        found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
+      }
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
-- 
2.43.0


From 4a6fd912b4b3689dd724bc1259ec369c1c0b7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:44 +0000
Subject: [PATCH 12/22] fix: a stop request never sets the stop tag of an
 environment in its past

---
 core/threaded/reactor_threaded.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index d96b25e..77f2ce0 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -518,7 +518,12 @@ void lf_request_stop(void) {
   // Iterate over environments to set their stop tag and release their barrier.
   for (int i = 0; i < num_environments; i++) {
     LF_MUTEX_LOCK(&env[i].mutex);
-    lf_set_stop_tag(&env[i], (tag_t){.time = max_current_tag.time, .microstep = max_current_tag.microstep + 1});
+    // The environment may have advanced past max_current_tag while its mutex was not held.
+    tag_t last_tag = max_current_tag;
+    if (lf_tag_compare(env[i].current_tag, last_tag) > 0) {
+      last_tag = env[i].current_tag;
+    }
+    lf_set_stop_tag(&env[i], (tag_t){.time = last_tag.time, .microstep = last_tag.microstep + 1});
     // Release the barrier on tag advancement.
     _lf_decrement_tag_barrier_locked(&env[i]);
 
-- 
2.43.0


From 4d8ed1e881bc799e756193d0ca43bd17d123bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:44 +0000
Subject: [PATCH 13/22] fix: a stop request wakes every environment

---
 core/threaded/reactor_threaded.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 77f2ce0..1ac02e2 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -530,7 +530,7 @@ void lf_request_stop(void) {
     // We signal instead of broadcast under the assumption that only
     // one worker thread can call wait_until at a given time because
     // the call to wait_until is protected by a mutex lock
-    lf_cond_signal(&env->event_q_changed);
+    lf_cond_signal(&env[i].event_q_changed);
     LF_MUTEX_UNLOCK(&env[i].mutex);
   }
 #endif
-- 
2.43.0


From ee923688f3344ac232f6b6f0df9f5a1210cd4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:44 +0000
Subject: [PATCH 14/22] fix: a huge timeout saturates instead of stopping the
 program before it starts

---
 core/environment.c               | 2 +-
 core/threaded/reactor_threaded.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index d24de4b..cdf2264 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -198,7 +198,7 @@ void environment_init_tags(environment_t* env, instant_t start_time, interval_t
   tag_t stop_tag = FOREVER_TAG_INITIALIZER;
   if (duration >= 0LL) {
     // A duration has been specified. Calculate the stop time.
-    stop_tag.time = env->current_tag.time + duration;
+    stop_tag.time = lf_time_add(env->current_tag.time, duration);
     stop_tag.microstep = 0;
   }
   env->stop_tag = stop_tag;
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 1ac02e2..45bdbb8 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -584,7 +584,7 @@ void _lf_initialize_start_tag(environment_t* env) {
   env->current_tag = (tag_t){.time = start_time, .microstep = 0u};
   if (duration >= 0LL) {
     // A duration has been specified. Recalculate the stop time.
-    env->stop_tag = ((tag_t){.time = start_time + duration, .microstep = 0});
+    env->stop_tag = ((tag_t){.time = lf_time_add(start_time, duration), .microstep = 0});
   }
 
   _lf_initialize_timers(env);
-- 
2.43.0


From 82217f9b2de2f51216ac7972f5de2928efcab7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:01 +0000
Subject: [PATCH 15/22] fix: a deadline that saturates is not missed

---
 core/reactor.c                   | 2 +-
 core/reactor_common.c            | 2 +-
 core/threaded/reactor_threaded.c | 2 +-
 lib/schedule.c                   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 7d0f2ef..c32cb71 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -160,7 +160,7 @@ int _lf_do_step(environment_t* env) {
       // container deadlines are defined in the container.
       // They can have different deadlines, so we have to check both.
       // Handle the local deadline first.
-      if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+      if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
         LF_PRINT_LOG("Deadline violation. Invoking deadline handler.");
         tracepoint_reaction_deadline_missed(env, reaction, 0);
         // Deadline violation has occurred.
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 567d9b1..cd1d77e 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -833,7 +833,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
       instant_t physical_time = lf_time_physical();
       // Check for deadline violation.
       if (downstream_to_execute_now->deadline == 0 ||
-          physical_time > env->current_tag.time + downstream_to_execute_now->deadline) {
+          physical_time > lf_time_add(env->current_tag.time, downstream_to_execute_now->deadline)) {
         // Deadline violation has occurred.
         tracepoint_reaction_deadline_missed(env, downstream_to_execute_now, worker);
         violation = true;
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 45bdbb8..7d8b894 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -691,7 +691,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
     // Get the current physical time.
     instant_t physical_time = lf_time_physical();
     // Check for deadline violation.
-    if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+    if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
       // Deadline violation has occurred.
       tracepoint_reaction_deadline_missed(env, reaction, worker_number);
       violation_occurred = true;
diff --git a/lib/schedule.c b/lib/schedule.c
index af4656b..39130fd 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -98,7 +98,7 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
  */
 bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
   reaction_t* reaction = ((self_base_t*)self)->executing_reaction;
-  if (lf_time_physical() > (lf_time_logical(((self_base_t*)self)->environment) + reaction->deadline)) {
+  if (lf_time_physical() > lf_time_add(lf_time_logical(((self_base_t*)self)->environment), reaction->deadline)) {
     if (invoke_deadline_handler) {
       reaction->deadline_violation_handler(self);
     }
-- 
2.43.0


From a92f3a90e1dee12829f057500c81fc1d8cb01437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 16/22] fix: a timer with a huge offset or period is not queued
 in the past

---
 core/reactor_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index cd1d77e..4b504e6 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -363,7 +363,7 @@ void _lf_initialize_timer(environment_t* env, trigger_t* timer) {
     // && (timer->offset != 0 || timer->period != 0)) {
     event_t* e = lf_get_new_event(env);
     e->trigger = timer;
-    e->base.tag = (tag_t){.time = lf_time_logical(env) + timer->offset, .microstep = 0};
+    e->base.tag = (tag_t){.time = lf_time_add(lf_time_logical(env), timer->offset), .microstep = 0};
     _lf_add_suspended_event(e);
     return;
   }
@@ -386,7 +386,7 @@ void _lf_initialize_timer(environment_t* env, trigger_t* timer) {
 
   // Get an event_t struct to put on the event queue.
   // Recycle event_t structs, if possible.
-  tag_t next_tag = (tag_t){.time = lf_time_logical(env) + delay, .microstep = 0};
+  tag_t next_tag = (tag_t){.time = lf_time_add(lf_time_logical(env), delay), .microstep = 0};
   // Do not schedule the next event if it is after the timeout.
   if (!lf_is_tag_after_stop_tag(env, next_tag)) {
     event_t* e = lf_get_new_event(env);
-- 
2.43.0


From ac75f99865d5a2d0a1f11ddb7633d3b0d9e970a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:43 +0000
Subject: [PATCH 17/22] fix: a reaction of an inactive mode is not executed
 directly by its upstream reaction

---
 core/reactor_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 4b504e6..9a80f0d 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -758,7 +758,12 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // avoids acquiring a mutex lock.
               // FIXME: Check the earliest deadline on the reaction queue.
               // This optimization could violate EDF scheduling otherwise.
-              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction) {
+              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction
+#ifdef MODAL_REACTORS
+                  // A reaction disabled by mode inactivity is suppressed by _lf_trigger_reaction() below.
+                  && _lf_mode_is_active(downstream_reaction->mode)
+#endif
+              ) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
               } else {
-- 
2.43.0


From 916b5375ebdbd2f7d94f5d766b7cddcdba4ffdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:21 +0000
Subject: [PATCH 18/22] fix: a level without reactions has a slot to inspect
 when looking for work

---
 core/threaded/scheduler_NP.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/threaded/scheduler_NP.c b/core/threaded/scheduler_NP.c
index fd0ccfb..788289d 100644
--- a/core/threaded/scheduler_NP.c
+++ b/core/threaded/scheduler_NP.c
@@ -271,8 +271,10 @@ void lf_sched_init(environment_t* env, size_t number_of_workers, sched_params_t*
         queue_size = params->num_reactions_per_level[i];
       }
     }
-    // Initialize the reaction vectors
-    env->scheduler->custom_data->triggered_reactions[i] = (reaction_t**)calloc(queue_size, sizeof(reaction_t*));
+    // Initialize the reaction vectors. A level without reactions also needs one (empty) slot because the first slot of
+    // each level is inspected to find out whether there is anything to execute.
+    env->scheduler->custom_data->triggered_reactions[i] =
+        (reaction_t**)calloc(LF_MAX(queue_size, 1), sizeof(reaction_t*));
 
     LF_PRINT_DEBUG("Scheduler: Initialized vector of reactions for level %zu with size %zu", i, queue_size);
 
-- 
2.43.0


From afd4af19693ae21af2efc865d1fe278eacab0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:45 +0000
Subject: [PATCH 19/22] fix: the answer to a stop request accounts for the
 current tag of every enclave

---
 core/federated/federate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..d20b285 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1465,7 +1465,7 @@ static void handle_stop_request_message() {
     LF_MUTEX_LOCK(&env[i].mutex);
     if (lf_tag_compare(tag_to_stop, env[i].current_tag) <= 0) {
       // Can't stop at the requested tag. Make a counteroffer.
-      tag_to_stop = env->current_tag;
+      tag_to_stop = env[i].current_tag;
       tag_to_stop.microstep++;
     }
     // Set a barrier to prevent the enclave from advancing past the so-far tag to stop.
-- 
2.43.0


From 3f7c0baca966a6d089cb9db6f8995f32b2ba1128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:45 +0000
Subject: [PATCH 20/22] fix: an enclave that passed the granted stop tag does
 not delay the stop of the others

---
 core/federated/federate.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index d20b285..22122c7 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1382,17 +1382,20 @@ static void handle_stop_granted_message() {
   for (int i = 0; i < num_environments; i++) {
     LF_MUTEX_LOCK(&env[i].mutex);
 
+    // An enclave that has passed the granted tag must not affect the stop tag of the others.
+    tag_t enclave_stop_tag = received_stop_tag;
+
     // Sanity check.
     if (lf_tag_compare(received_stop_tag, env[i].current_tag) <= 0) {
       lf_print_error("RTI granted a MSG_TYPE_STOP_GRANTED tag that is equal to or less than this federate's current "
                      "tag " PRINTF_TAG ". "
                      "Stopping at the next microstep instead.",
                      env[i].current_tag.time - start_time, env[i].current_tag.microstep);
-      received_stop_tag = env[i].current_tag;
-      received_stop_tag.microstep++;
+      enclave_stop_tag = env[i].current_tag;
+      enclave_stop_tag.microstep++;
     }
 
-    lf_set_stop_tag(&env[i], received_stop_tag);
+    lf_set_stop_tag(&env[i], enclave_stop_tag);
     LF_PRINT_DEBUG("Setting the stop tag to " PRINTF_TAG ".", env[i].stop_tag.time - start_time,
                    env[i].stop_tag.microstep);
 
-- 
2.43.0


From ea5cb284d7f69b7a3d8ed6c4cfa909f300ff37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:45 +0000
Subject: [PATCH 21/22] fix: a huge minimum delay of physical actions does not
 overflow the next event promise

---
 core/federated/federate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 22122c7..3f39f3a 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1651,9 +1651,10 @@ static bool bounded_NET(tag_t* tag) {
     // federate, and there is at least one downstream federate.
     // Compare the tag to the current physical time.
     instant_t physical_time = lf_time_physical();
-    if (physical_time + _fed.min_delay_from_physical_action_to_federate_output < tag->time) {
+    instant_t bound = lf_time_add(physical_time, _fed.min_delay_from_physical_action_to_federate_output);
+    if (bound < tag->time) {
       // Can only promise up and not including this new time:
-      tag->time = physical_time + _fed.min_delay_from_physical_action_to_federate_output - 1L;
+      tag->time = bound - 1L;
       tag->microstep = 0;
       LF_PRINT_LOG("Has physical actions that bound NET to " PRINTF_TAG ".", tag->time - start_time, tag->microstep);
       return true;
-- 
2.43.0


From 78cc91a9216fedc5b98147bb0a3d7b275d4633fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:10 +0000
Subject: [PATCH 22/22] fix: programs with enclaves compile (environments have
 no trace member)

---
 core/federated/RTI/rti_local.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_local.c b/core/federated/RTI/rti_local.c
index 9e70137..b5101e9 100644
--- a/core/federated/RTI/rti_local.c
+++ b/core/federated/RTI/rti_local.c
@@ -43,7 +43,11 @@ void initialize_local_rti(environment_t* envs, int num_envs) {
   LF_MUTEX_INIT(&rti_mutex);
   rti_local->base.mutex = &rti_mutex;
   rti_local->base.number_of_scheduling_nodes = num_envs;
-  rti_local->base.tracing_enabled = (envs[0].trace != NULL);
+#ifdef LF_TRACE
+  rti_local->base.tracing_enabled = true;
+#else
+  rti_local->base.tracing_enabled = false;
+#endif
 
   // Allocate memory for the enclave_info objects
   rti_local->base.scheduling_nodes = (scheduling_node_t**)calloc(num_envs, sizeof(scheduling_node_t*));
-- 
2.43.0

