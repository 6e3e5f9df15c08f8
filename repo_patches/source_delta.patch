From 0669ce21127e0f494bf88e6d60775dc128f704a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 01/20] fix: late frames no longer displace the receiver's
 newer and older ratchet keys

---
 src/rust/src/core/crypto.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/core/crypto.rs b/src/rust/src/core/crypto.rs
index 04a1ae8..2c5766e 100644
--- a/src/rust/src/core/crypto.rs
+++ b/src/rust/src/core/crypto.rs
@@ -397,9 +397,13 @@ impl Context {
         for state in states.iter_mut() {
             let mut try_state = state.try_advance_ratchet(ratchet_counter, frame_counter);
             if check_mac(&try_state, frame_counter, data, mac) {
-                try_state.limit_ooo();
-                *state = try_state;
-                decrypt_internal(state, frame_counter, data);
+                decrypt_internal(&try_state, frame_counter, data);
+                // A frame from before the last ratchet is merely late: the newer keys, and the
+                // older ones that other late frames may need, are still the ones to keep.
+                if frame_counter > state.ratchet_frame {
+                    try_state.limit_ooo();
+                    *state = try_state;
+                }
                 return Ok(());
             }
         }
-- 
2.43.0


From 78d2b0d34ce814d887e82da24dcefab5fcc1e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 02/20] fix: assets are listed in the order of their versions,
 not of the versions' text

---
 src/rust/src/core/assets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/assets.rs b/src/rust/src/core/assets.rs
index 929df2d..0c1771a 100644
--- a/src/rust/src/core/assets.rs
+++ b/src/rust/src/core/assets.rs
@@ -67,12 +67,13 @@ impl Asset {
 
 impl Ord for Asset {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        match self.metadata.cmp(&other.metadata) {
+        // The metadata has the version as text, which puts 0.10.0 before 0.9.0.
+        match self.version.cmp(&other.version) {
             core::cmp::Ordering::Equal => {}
             ord => return ord,
         }
 
-        self.version.cmp(&other.version)
+        self.metadata.cmp(&other.metadata)
     }
 }
 
-- 
2.43.0


From e090dd8aa287fda63231f126e5ea1ad1206d7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 03/20] fix: redact IPv6 addresses with an embedded IPv4
 address in any position

Mixed-notation addresses such as 1:2:3:4:5:6:192.0.2.33, 1::2:192.0.2.33 or
1:2:3:4:5::192.0.2.33 were only redacted in part, so that the rest of the
address was logged.
---
 src/rust/src/core/util.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/util.rs b/src/rust/src/core/util.rs
index 6d57d14..ac49e12 100644
--- a/src/rust/src/core/util.rs
+++ b/src/rust/src/core/util.rs
@@ -160,7 +160,8 @@ fn redact_ice_password(text: Cow<'_, str>) -> Cow<'_, str> {
 // IPV6SEG  = [0-9a-fA-F]{1,4}
 // IPV6ADDR = (
 //            fe80:(:IPV6SEG){0,4}%[0-9a-zA-Z]{1,}|  # fe80::7:8%eth0     fe80::7:8%1  (link-local IPv6 addresses with zone index)
-//            (::)?(IPV6SEG:){1,4}:IPV4ADDR          # 2001:db8:3:4::192.0.2.33  64:ff9b::192.0.2.33 (IPv4-Embedded IPv6 Address)
+//            (::)?(IPV6SEG:){1,5}:(IPV6SEG:){0,4}IPV4ADDR|  # 2001:db8:3:4::192.0.2.33  64:ff9b::192.0.2.33 (IPv4-Embedded IPv6 Address)
+//            (IPV6SEG:){6,6}IPV4ADDR|               # 1:2:3:4:5:6:192.0.2.33
 //            (IPV6SEG:){7,7}IPV6SEG|                # 1:2:3:4:5:6:7:8
 //            (IPV6SEG:){1,1}(:IPV6SEG){1,6}|        # 1::3:4:5:6:7:8     1::3:4:5:6:7:8   1::8
 //            (IPV6SEG:){1,2}(:IPV6SEG){1,5}|        # 1::4:5:6:7:8       1:2::4:5:6:7:8   1:2::8
@@ -169,7 +170,7 @@ fn redact_ice_password(text: Cow<'_, str>) -> Cow<'_, str> {
 //            (IPV6SEG:){1,5}(:IPV6SEG){1,2}|        # 1::7:8             1:2:3:4:5::7:8   1:2:3:4:5::8
 //            (IPV6SEG:){1,6}:IPV6SEG|               # 1::8               1:2:3:4:5:6::8   1:2:3:4:5:6::8
 //            (IPV6SEG:){1,7}:|                      # 1::                                 1:2:3:4:5:6:7::
-//            ::(ffff(:0{1,4}){0,1}:){0,1}IPV4ADDR|  # ::255.255.255.255  ::ffff:255.255.255.255  ::ffff:0:255.255.255.255 (IPv4-mapped IPv6 addresses and IPv4-translated addresses)
+//            ::(IPV6SEG:){0,5}IPV4ADDR|             # ::255.255.255.255  ::ffff:255.255.255.255  ::ffff:0:255.255.255.255 (IPv4-mapped IPv6 addresses and IPv4-translated addresses)
 //            :((:IPV6SEG){1,7}|:)|                  # ::2:3:4:5:6:7:8    ::2:3:4:5:6:7:8  ::8       ::
 //            )
 
@@ -182,7 +183,8 @@ fn redact_ipv6(text: Cow<'_, str>) -> Cow<'_, str> {
     let re = regex_aot::regex!(
         "\
         [Ff][Ee]80:(:(x|[0-9a-fA-F]{0,4})){0,4}%[0-9a-zA-Z]{1,}|\
-        (::)?([0-9a-fA-F]{1,4}:){1,4}:([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
+        (::)?([0-9a-fA-F]{1,4}:){1,5}:([0-9a-fA-F]{1,4}:){0,4}([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
+        ([0-9a-fA-F]{1,4}:){6,6}([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
         ((x|[0-9a-fA-F]{1,4}):){7,7}(x|[0-9a-fA-F]{1,4})|\
         ([0-9a-fA-F]{1,4}:){1,1}(:(x|[0-9a-fA-F]{1,4})){1,6}|\
         ([0-9a-fA-F]{1,4}:){1,2}(:(x|[0-9a-fA-F]{1,4})){1,5}|\
@@ -191,7 +193,7 @@ fn redact_ipv6(text: Cow<'_, str>) -> Cow<'_, str> {
         ([0-9a-fA-F]{1,4}:){1,5}(:(x|[0-9a-fA-F]{1,4})){1,2}|\
         ([0-9a-fA-F]{1,4}:){1,6}:(x|[0-9a-fA-F]{1,4})|\
         ([0-9a-fA-F]{1,4}:){1,7}:|\
-        ::([fF]{4}(:0{1,4}){0,1}:){0,1}([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
+        ::([0-9a-fA-F]{1,4}:){0,5}([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
         :((:(x|[0-9a-fA-F]{1,4})){1,7}|:)\
         "
     );
-- 
2.43.0


From 5c7acfd6efb8c9c8327aee604d27eb3ce1f82454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 04/20] fix: a failed send must not end a call that is already
 terminating

When the application reported a send failure for a call that is no longer
active but is still shutting down, the call was terminated a second time and
the application was told more than once that the call had ended.
---
 src/rust/src/core/call_manager.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..587f26c 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1329,16 +1329,11 @@ where
                     );
                 }
             } else {
+                // A call that is no longer active is already being terminated.
                 info!(
-                    "handle_message_send_failure(): id: {}, terminating call",
+                    "handle_message_send_failure(): id: {}, call is already terminating",
                     call_id
                 );
-
-                let hangup = call
-                    .should_send_hangup_on_failure()
-                    .then_some(signaling::Hangup::Normal);
-
-                self.terminate_call(call, hangup, Some(CallEndReason::SignalingFailure))?;
             }
         } else {
             info!("handle_message_send_failure(): no matching call found");
-- 
2.43.0


From e2f643284b6fd920e626a88a527052adda68cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 05/20] fix: reset must not terminate a call that is already
 terminating

Resetting while a call was still shutting down terminated it a second time,
and the application was told once more that the call had ended.
---
 src/rust/src/core/call_manager.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 587f26c..6ee3165 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2007,6 +2007,10 @@ where
 
         // foreach call, terminate without notifying application
         for call in calls {
+            if !self.call_is_active(call.call_id())? {
+                // A call that is no longer active is already being terminated.
+                continue;
+            }
             info!("reset(): terminating call_id: {}", call.call_id());
             let _ = self.terminate_call(call, Some(signaling::Hangup::Normal), None);
         }
-- 
2.43.0


From e0a5c3d60f92aeda14fe67e48e94bf0d9bc9adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 06/20] fix: a refused call must not end the active call with
 the same peer

When the application asked for a call while one was active with the same
peer, the request failed as it should, but the error was then taken for one
of the active call: that call was ended, and the refused one was never
reported as ended or concluded.
---
 src/rust/src/core/call_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 6ee3165..37ad174 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2146,7 +2146,7 @@ where
     ) {
         info!("internal_create_api_error(): error: {}", error);
         if let Ok(active_call) = self.active_call()
-            && self.remote_peer_equals_active(&active_call, remote_peer)
+            && active_call.call_id() == call_id
         {
             // The task managed to create the active call and then
             // hit problems.  Error out with active call clean up.
-- 
2.43.0


From 00af7e61f1e8c1fa3ae69dd007ae0431765a7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 07/20] fix: ICE candidates that arrive before their offer keep
 their own sender

---
 src/rust/src/core/call_manager.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 37ad174..3b0788c 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -240,9 +240,9 @@ where
     #[default]
     None,
     IceCandidates {
-        remote_peer: <T as Platform>::AppRemotePeer,
         call_id: CallId,
-        received: Vec<signaling::ReceivedIce>,
+        // Anyone can use any call ID, so remember who sent each message.
+        received: Vec<(<T as Platform>::AppRemotePeer, signaling::ReceivedIce)>,
     },
     Hangup {
         remote_peer: <T as Platform>::AppRemotePeer,
@@ -263,14 +263,14 @@ where
     ) {
         info!("no active call; saving ice candidates for {}", new_call_id);
         match self {
-            PendingCallMessages::IceCandidates {
-                call_id, received, ..
-            } if call_id == &new_call_id => {
+            PendingCallMessages::IceCandidates { call_id, received }
+                if call_id == &new_call_id =>
+            {
                 // Avoid growing unbounded.
                 if received.len() >= 30 {
                     received.remove(0);
                 }
-                received.push(new_received);
+                received.push((remote_peer, new_received));
                 return;
             }
             PendingCallMessages::Hangup { call_id, .. } if call_id == &new_call_id => {
@@ -284,9 +284,8 @@ where
             PendingCallMessages::None => {}
         }
         *self = PendingCallMessages::IceCandidates {
-            remote_peer,
             call_id: new_call_id,
-            received: vec![new_received],
+            received: vec![(remote_peer, new_received)],
         }
     }
 
@@ -1523,12 +1522,10 @@ where
 
                 match std::mem::take(&mut *self.pending_call_messages.lock()?) {
                     PendingCallMessages::None => {}
-                    PendingCallMessages::IceCandidates {
-                        remote_peer: pending_remote_peer,
-                        call_id,
-                        received,
-                    } if call_id == incoming_call_id => {
-                        for received in received {
+                    PendingCallMessages::IceCandidates { call_id, received }
+                        if call_id == incoming_call_id =>
+                    {
+                        for (pending_remote_peer, received) in received {
                             if self
                                 .platform
                                 .lock()?
-- 
2.43.0


From 139cbd5042ed8b74e192a5579f6d6110c41a9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 08/20] verification hook: tell of lock acquisitions under
 cfg(ringrtc_verif)

---
 src/rust/src/core/call_mutex.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rust/src/core/call_mutex.rs b/src/rust/src/core/call_mutex.rs
index 1028d22..12c3fce 100644
--- a/src/rust/src/core/call_mutex.rs
+++ b/src/rust/src/core/call_mutex.rs
@@ -4,6 +4,7 @@
 //
 
 //! Call Mutex
+#![allow(unexpected_cfgs)] // ringrtc_verif
 ///
 /// Wrapper around std::mpsc::Mutex::lock() that on error consumes
 /// the poisoned mutex and returns a simple error code.
@@ -23,6 +24,13 @@ pub struct CallMutex<T: ?Sized> {
 unsafe impl<T: ?Sized + Send> Send for CallMutex<T> {}
 unsafe impl<T: ?Sized + Send> Sync for CallMutex<T> {}
 
+/// Told of every lock that is about to be taken, so that schedules can be explored.
+/// Only for verification: built with `--cfg ringrtc_verif`.
+#[cfg(ringrtc_verif)]
+unsafe extern "C" {
+    safe fn ringrtc_verif_lock();
+}
+
 impl<T> CallMutex<T> {
     /// Creates a new CallMutex
     pub fn new(t: T, label: &str) -> CallMutex<T> {
@@ -33,6 +41,8 @@ impl<T> CallMutex<T> {
     }
 
     pub fn lock(&self) -> Result<MutexGuard<'_, T>> {
+        #[cfg(ringrtc_verif)]
+        ringrtc_verif_lock();
         match self.mutex.lock() {
             Ok(v) => Ok(v),
             Err(_) => Err(RingRtcError::MutexPoisoned(self.label.clone()).into()),
@@ -40,6 +50,8 @@ impl<T> CallMutex<T> {
     }
 
     pub fn lock_or_reset(&self, reset: impl FnOnce(&str) -> T) -> MutexGuard<'_, T> {
+        #[cfg(ringrtc_verif)]
+        ringrtc_verif_lock();
         self.mutex.lock().unwrap_or_else(|mut poison_error| {
             let new_value = reset(&self.label);
             **poison_error.get_mut() = new_value;
-- 
2.43.0


From 26151054bf9b6dbf67ff28ddfbef2dbd3a7e8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 09/20] fix: don't lock the bandwidth controller while holding
 the webrtc lock

set_network_route() took the locks in the opposite order from
update_bandwidth_controller(), so that a network route change at the same
time as an update of the data mode could deadlock the call.
---
 src/rust/src/core/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index 4e62611..95b8607 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1011,11 +1011,14 @@ where
 
     /// Update the current network route.
     pub fn set_network_route(&self, network_route: NetworkRoute) -> Result<()> {
+        // This locks bandwidth_controller, which must not happen while webrtc is locked.
+        // See update_bandwidth_controller.
+        let old_network_route = self.network_route();
         if let Ok(mut webrtc) = self
             .webrtc
             .lock()
             .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
-            && let Ok(old_network_route) = self.network_route()
+            && let Ok(old_network_route) = old_network_route
             && (old_network_route.local_relayed != network_route.local_relayed
                 || old_network_route.remote_relayed != network_route.remote_relayed
                 || old_network_route.local_relay_protocol != network_route.local_relay_protocol)
-- 
2.43.0


From 720e258ea7384e5968af2fba228770c4ba323cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 10/20] fix: the frame rate of received video is a number even
 if no time has passed

Like all the other rates, it is 0 if it cannot be computed.
---
 src/rust/src/webrtc/stats_observer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 63f0207..725c565 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -713,7 +713,9 @@ impl VideoReceiverStatsSnapshot {
         let packets_lost_pct =
             compute_packets_lost_pct(packets_lost, packets_received_delta + packets_lost);
         let bitrate = compute_bitrate(bytes_received_delta, seconds_elapsed);
-        let framerate = frames_decoded_delta as f32 / seconds_elapsed;
+        let framerate = (frames_decoded_delta as f32)
+            .naive_checked_div(seconds_elapsed)
+            .unwrap_or(0.0);
         let decode_time_per_frame = 1000.0
             * total_decode_time_delta
                 .naive_checked_div(frames_decoded_delta as f64)
-- 
2.43.0


From a9fee142b1b15a6ded5662268b80bc1f5282ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 11/20] fix: report the jitter of received video, in
 milliseconds

It was the change of the jitter since the last report, in seconds, unlike
that of all the other streams, and was logged and summarized as milliseconds.
---
 src/rust/src/webrtc/stats_observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 725c565..db73b03 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -704,8 +704,8 @@ impl VideoReceiverStatsSnapshot {
         let key_frames_decoded_delta = delta!(curr_stats, prev_stats, key_frames_decoded);
         let bytes_received_delta = delta!(curr_stats, prev_stats, bytes_received);
         let total_decode_time_delta = delta!(curr_stats, prev_stats, total_decode_time);
-        let jitter = delta!(curr_stats, prev_stats, jitter);
         let freeze_count = delta!(curr_stats, prev_stats, freeze_count);
+        let jitter = 1000.0 * curr_stats.jitter;
 
         let packets_per_second =
             compute_packets_per_second(packets_received_delta, seconds_elapsed);
-- 
2.43.0


From 75ada2f21935695c585cb955896805abaee200a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 12/20] fix: the send delay of video is per packet, not per
 frame

---
 src/rust/src/webrtc/stats_observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index db73b03..f4138b6 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -575,7 +575,7 @@ impl VideoSenderStatsSnapshot {
                 .unwrap_or(0.0);
         let send_delay_per_packet = 1000.0
             * total_packets_send_delay_delta
-                .naive_checked_div(frames_encoded_delta as f64)
+                .naive_checked_div(packets_sent_delta as f64)
                 .unwrap_or(0.0);
         let remote_packets_lost_pct =
             compute_packets_lost_pct(packets_lost_delta.max(0) as u32, packets_sent_delta);
-- 
2.43.0


From d095febf36c72592a49e23aad5be7c9652824105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 13/20] fix: audio device names longer than WebRTC's buffer are
 cut between characters, not refused

A name whose cut fell inside a multi-byte character made the device's name unavailable.
---
 src/rust/src/webrtc/audio_device_module_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 65a45eb..6fbe791 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -227,7 +227,11 @@ pub fn copy_and_truncate_string(
     dest_size: usize,
 ) -> anyhow::Result<()> {
     // Leave room for the nul terminator.
-    let size = std::cmp::min(src.len(), dest_size - 1);
+    let mut size = std::cmp::min(src.len(), dest_size - 1);
+    // Don't split a multi-byte character.
+    while !src.is_char_boundary(size) {
+        size -= 1;
+    }
     let c_str = CString::new(src.get(0..size).ok_or(anyhow!("couldn't get substring"))?)?;
     let c_str_bytes = c_str.as_bytes_with_nul();
     // Safety: dest has at least |dest_size| bytes allocated, and we won't
-- 
2.43.0


From 595fea6e56a229e2294a60cbb5bc5ee9a94c4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 14/20] fix: redaction of Cubeb's log lines redacts each
 captured name where it stands

Replacing the text of one name everywhere changed longer names that contain it,
which were then not found and so not redacted; and text before the match came out twice.
---
 .../src/webrtc/audio_device_module_utils.rs   | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 6fbe791..8ad7f93 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -276,21 +276,17 @@ pub fn redact_for_logging(s: &str) -> String {
 /// Redact all capturing groups (except group 0) with |redact_for_logging|
 /// if the regex matches. Otherwise, return None.
 pub fn redact_by_regex(re: &Regex, s: &str) -> Option<String> {
-    if re.is_match(s) {
-        Some(
-            re.replace(s, |caps: &regex::Captures| {
-                let mut out = s.to_string();
-                // Skip group 0 (the entire match)
-                for group in caps.iter().skip(1).flatten() {
-                    out = out.replace(group.as_str(), &redact_for_logging(group.as_str()));
-                }
-                out
-            })
-            .to_string(),
-        )
-    } else {
-        None
+    let caps = re.captures(s)?;
+    let mut out = String::new();
+    let mut end = 0;
+    // Skip group 0 (the entire match)
+    for group in caps.iter().skip(1).flatten() {
+        out.push_str(&s[end..group.start()]);
+        out.push_str(&redact_for_logging(group.as_str()));
+        end = group.end();
     }
+    out.push_str(&s[end..]);
+    Some(out)
 }
 
 #[cfg(test)]
-- 
2.43.0


From cc8faca52ac0f9d04cd65ad3e6f31e8a3ae9f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 15/20] fix: process every reliable SfuToDevice packet that
 becomes ready

A packet with content ended the handling of all the packets that were
released with it, though all of them had been acknowledged.
---
 src/rust/src/core/group_call.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..9754beb 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4421,7 +4421,6 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 4ba7a8e4fa7848e0ab15ad2cac662842c596fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 16/20] fix: leave when the end delay finds the client joined
 again

Joining again within CLIENT_END_DELAY of the end of a group call stopped the
actor without leaving, so the call manager stayed busy for good.
---
 src/rust/src/core/group_call.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 9754beb..0934d70 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2750,6 +2750,10 @@ impl Client {
                 // the peer connection and cleaning up.
                 let actor = state.actor.clone();
                 actor.send_delayed(CLIENT_END_DELAY, move |state| {
+                    // The client may have been asked to join again during the delay.
+                    if !matches!(state.join_state, JoinState::NotJoined(_)) {
+                        Self::leave_inner(state);
+                    }
                     state.peer_connection.close();
                     Self::set_connection_state_and_notify_observer(
                         state,
-- 
2.43.0


From 162774de2c6b4bad3d0adf50ce01b91721dae51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 17/20] fix: point a cloned IceServer at its own URLs

---
 .../src/webrtc/peer_connection_factory.rs     | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index 1187d80..3928317 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -52,7 +52,7 @@ pub enum RffiPeerConnectionKind {
     GroupCall,
 }
 
-#[derive(Clone, Debug, Default)]
+#[derive(Debug, Default)]
 pub struct IceServer {
     username: CString,
     password: CString,
@@ -66,6 +66,24 @@ pub struct IceServer {
 unsafe impl Send for IceServer {}
 unsafe impl Sync for IceServer {}
 
+impl Clone for IceServer {
+    fn clone(&self) -> Self {
+        // The pointers must be to the clone's own strings.
+        let urls = self._urls.clone();
+        let url_ptrs = urls
+            .iter()
+            .map(|s| webrtc::ptr::Borrowed::from_ptr(s.as_ptr()))
+            .collect();
+        Self {
+            username: self.username.clone(),
+            password: self.password.clone(),
+            hostname: self.hostname.clone(),
+            _urls: urls,
+            url_ptrs,
+        }
+    }
+}
+
 impl IceServer {
     pub fn new(username: String, password: String, hostname: String, urls_in: Vec<String>) -> Self {
         let mut urls = Vec::new();
-- 
2.43.0


From 607353cb467a2c8809adb7be025060c7d7d67ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 18/20] fix: refuse text after the last group of a call link
 key

---
 src/rust/src/lite/call_links/base16.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links/base16.rs b/src/rust/src/lite/call_links/base16.rs
index 7656be7..8c68445 100644
--- a/src/rust/src/lite/call_links/base16.rs
+++ b/src/rust/src/lite/call_links/base16.rs
@@ -129,7 +129,10 @@ impl ConsonantBase16<'_> {
                 }
                 count_until_separator = match chunk_size_iter.next() {
                     Some(chunk_size) => chunk_size,
-                    None => break,
+                    None => {
+                        let position = string.len() - (bytes.len() + 1);
+                        return Err(DecodeError::UnexpectedSeparator(position));
+                    }
                 };
                 continue;
             }
-- 
2.43.0


From 91b284b44f27270add30d053e2d7661e7ea176e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 19/20] fix: survive a call link expiration that is no time

---
 src/rust/src/lite/call_links.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index b407280..0163ed1 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -103,7 +103,13 @@ impl CallLinkState {
             restrictions: deserialized.restrictions,
             revoked: deserialized.revoked,
             expiration: SystemTime::UNIX_EPOCH
-                + Duration::from_secs(deserialized.expiration_unix_timestamp),
+                .checked_add(Duration::from_secs(
+                    deserialized.expiration_unix_timestamp,
+                ))
+                .unwrap_or_else(|| {
+                    warn!("expiration of call link is out of range");
+                    SystemTime::UNIX_EPOCH
+                }),
         }
     }
 }
-- 
2.43.0


From 1535179cb1429f1be22e59a3e16ed54b5d45d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 20/20] fix: give WebRTC no memory beyond a video frame's
 buffer

---
 src/rust/src/webrtc/media.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rust/src/webrtc/media.rs b/src/rust/src/webrtc/media.rs
index be1ac1a..11ad9b8 100644
--- a/src/rust/src/webrtc/media.rs
+++ b/src/rust/src/webrtc/media.rs
@@ -189,6 +189,15 @@ impl VideoFrame {
             height,
             rotation: VideoRotation::None,
         };
+        let num_pixels = width as usize * height as usize;
+        let expected_len = match pixel_format {
+            VideoPixelFormat::I420 | VideoPixelFormat::Nv12 => num_pixels * 3 / 2,
+            VideoPixelFormat::Rgba => num_pixels * 4,
+        };
+        assert!(
+            buffer.len() >= expected_len,
+            "buffer too small for video frame"
+        );
         let rffi_source = webrtc::ptr::Borrowed::from_ptr(buffer.as_ptr());
         let rffi_buffer = webrtc::Arc::from_owned(match pixel_format {
             VideoPixelFormat::I420 => unsafe {
@@ -205,6 +214,9 @@ impl VideoFrame {
     }
 
     pub fn to_rgba(&self, rgba_buffer: &mut [u8]) -> bool {
+        if rgba_buffer.len() < self.width() as usize * self.height() as usize * 4 {
+            return false;
+        }
         unsafe {
             media::Rust_convertVideoFrameBufferToRgba(
                 self.rffi_buffer.as_borrowed(),
-- 
2.43.0

