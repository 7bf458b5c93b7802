From 484b268ed4454947fe74dd9bde41b02bf32c3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 01/33] Add verification hooks guarded by cfg(uflow_verif)

---
 src/client/mod.rs           |   8 +
 src/frame/serial/mod.rs     |   3 +
 src/half_connection/emit.rs |   2 +
 src/half_connection/mod.rs  |  14 ++
 src/lib.rs                  |   4 +
 src/server/mod.rs           |   8 +
 src/udp_frame_sink.rs       |   3 +
 src/verif.rs                | 369 ++++++++++++++++++++++++++++++++++++
 8 files changed, 411 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..5f5f8be 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1,5 +1,13 @@
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use crate::CHANNEL_COUNT;
 use crate::EndpointConfig;
diff --git a/src/frame/serial/mod.rs b/src/frame/serial/mod.rs
index 255772e..1843801 100644
--- a/src/frame/serial/mod.rs
+++ b/src/frame/serial/mod.rs
@@ -8,6 +8,9 @@ mod crc;
 pub use build::DataFrameBuilder;
 pub use build::AckFrameBuilder;
 
+#[cfg(uflow_verif)]
+pub use crc::compute as crc_compute;
+
 const FRAME_HEADER_SIZE: usize = 1;
 const FRAME_CRC_SIZE: usize = 4;
 const FRAME_OVERHEAD: usize = FRAME_HEADER_SIZE + FRAME_CRC_SIZE;
diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..18a9b33 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -5,6 +5,8 @@ use crate::frame::serial::DataFrameBuilder;
 use crate::MAX_FRAME_SIZE;
 use crate::MAX_FRAME_WINDOW_SIZE;
 use crate::packet_id;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use super::pending_packet;
 use super::frame_queue;
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..a7f0739 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -2,7 +2,10 @@
 use crate::SendMode;
 use crate::frame;
 
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
 
 mod emit;
 mod frame_ack_queue;
@@ -20,6 +23,9 @@ mod send_rate;
 #[cfg(test)]
 mod packet_tests;
 
+#[cfg(uflow_verif)]
+pub use send_rate::{FeedbackData, SendRateComp};
+
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
 const INITIAL_RTO_ESTIMATE_MS: u64 = 4*INITIAL_RTT_ESTIMATE_MS;
 const MIN_SYNC_TIMEOUT_MS: u64 = 2000;
@@ -432,6 +438,14 @@ impl HalfConnection {
     }
 }
 
+#[cfg(uflow_verif)]
+impl HalfConnection {
+    /// Returns the current allowed send rate, in bytes per second.
+    pub fn verif_send_rate(&self) -> f64 {
+        self.send_rate_comp.send_rate()
+    }
+}
+
 // Internal Rc objects are unique to this object
 unsafe impl Send for HalfConnection {}
 
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..ba052b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! `uflow` is a non-blocking, connection-based layer over UDP that provides an ordered and
 //! drop-tolerant packet streaming interface for real-time applications (e.g. games). It manages
@@ -265,6 +266,9 @@ mod frame;
 mod packet_id;
 mod udp_frame_sink;
 
+#[cfg(uflow_verif)]
+pub mod verif;
+
 /// Server-related connection objects and parameters.
 pub mod server;
 
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..ff6bc02 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,8 +1,16 @@
 use std::cell::RefCell;
 use std::collections::HashMap;
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 use std::rc::Rc;
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use crate::EndpointConfig;
 use crate::frame::serial::Serialize;
diff --git a/src/udp_frame_sink.rs b/src/udp_frame_sink.rs
index e9a26d5..99e80ea 100644
--- a/src/udp_frame_sink.rs
+++ b/src/udp_frame_sink.rs
@@ -1,7 +1,10 @@
 
 use crate::half_connection;
 
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 
 // TODO: A Result<usize, std::io::Error> stored here could be used to forward errors to
 // client/server step/flush after the FrameSink has been used.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..0561f97
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,369 @@
+//! Verification hooks, compiled only with `--cfg uflow_verif`.
+//!
+//! Re-exports internals which are exercised by an external harness, and provides thread-local,
+//! fully controllable stand-ins for the three sources of non-determinism used by this crate: the
+//! monotonic clock, the random number generator, and UDP sockets.
+
+#![allow(missing_docs)]
+
+use crate::frame;
+
+pub use crate::frame::*;
+pub use crate::frame::serial::crc_compute;
+pub use crate::frame::serial::AckFrameBuilder;
+pub use crate::frame::serial::DataFrameBuilder;
+pub use crate::frame::serial::Serialize;
+pub use crate::half_connection::Config;
+pub use crate::half_connection::FeedbackData;
+pub use crate::half_connection::FrameSink;
+pub use crate::half_connection::HalfConnection;
+pub use crate::half_connection::PacketSink;
+pub use crate::half_connection::SendRateComp;
+
+struct FrameFn<'a>(&'a mut dyn FnMut(&[u8]));
+
+impl<'a> FrameSink for FrameFn<'a> {
+    fn send(&mut self, frame_data: &[u8]) {
+        (self.0)(frame_data)
+    }
+}
+
+struct PacketFn<'a>(&'a mut dyn FnMut(Box<[u8]>));
+
+impl<'a> PacketSink for PacketFn<'a> {
+    fn send(&mut self, packet_data: Box<[u8]>) {
+        (self.0)(packet_data)
+    }
+}
+
+/// Non-generic equivalent of `HalfConnection::flush()`.
+pub fn hc_flush(hc: &mut HalfConnection, sink: &mut dyn FnMut(&[u8])) {
+    hc.flush(&mut FrameFn(sink))
+}
+
+/// Non-generic equivalent of `HalfConnection::receive()`.
+pub fn hc_receive(hc: &mut HalfConnection, sink: &mut dyn FnMut(Box<[u8]>)) {
+    hc.receive(&mut PacketFn(sink))
+}
+
+/// Parses a frame and passes it to the given object as an active client or server would. Returns
+/// true if the frame was parsed.
+pub fn hc_handle(hc: &mut HalfConnection, frame_bytes: &[u8]) -> bool {
+    match frame::Frame::read(frame_bytes) {
+        Some(frame::Frame::DataFrame(frame)) => hc.handle_data_frame(frame),
+        Some(frame::Frame::SyncFrame(frame)) => hc.handle_sync_frame(frame),
+        Some(frame::Frame::AckFrame(frame)) => hc.handle_ack_frame(frame),
+        Some(_) => (),
+        None => return false,
+    }
+    return true;
+}
+
+/// Non-generic equivalent of `SendRateComp::step()`.
+pub fn src_step(src: &mut SendRateComp, now_ms: u64, feedback: Option<FeedbackData>, reset: &mut dyn FnMut(f64)) {
+    src.step(now_ms, feedback, |p| reset(p))
+}
+
+/// Virtual clock.
+pub mod time {
+    pub use std::time::*;
+
+    use std::cell::Cell;
+    use std::ops;
+
+    thread_local! {
+        static NOW_NS: Cell<u64> = Cell::new(0);
+    }
+
+    pub fn set_now_ns(ns: u64) {
+        NOW_NS.with(|now| now.set(ns));
+    }
+
+    pub fn now_ns() -> u64 {
+        NOW_NS.with(|now| now.get())
+    }
+
+    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord,Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(Duration::from_nanos(now_ns()))
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn checked_add(&self, duration: Duration) -> Option<Self> {
+            self.0.checked_add(duration).map(Self)
+        }
+
+        pub fn checked_sub(&self, duration: Duration) -> Option<Self> {
+            self.0.checked_sub(duration).map(Self)
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+    }
+
+    impl ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, other: Self) -> Duration {
+            self.duration_since(other)
+        }
+    }
+
+    impl ops::Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, duration: Duration) -> Self {
+            Self(self.0 + duration)
+        }
+    }
+
+    impl ops::Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, duration: Duration) -> Self {
+            Self(self.0 - duration)
+        }
+    }
+
+    impl ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, duration: Duration) {
+            self.0 += duration;
+        }
+    }
+
+    impl ops::SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, duration: Duration) {
+            self.0 -= duration;
+        }
+    }
+}
+
+/// Seeded random number generator.
+pub mod rand {
+    use std::cell::Cell;
+    use std::cell::RefCell;
+    use std::collections::VecDeque;
+
+    thread_local! {
+        static STATE: Cell<u64> = Cell::new(0);
+        static FORCED: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
+    }
+
+    /// Seeds the generator and clears any forced values.
+    pub fn seed(value: u64) {
+        STATE.with(|state| state.set(value));
+        FORCED.with(|forced| forced.borrow_mut().clear());
+    }
+
+    /// Forces the value (truncated as necessary) of a following random number.
+    pub fn force(value: u64) {
+        FORCED.with(|forced| forced.borrow_mut().push_back(value));
+    }
+
+    fn next() -> u64 {
+        if let Some(value) = FORCED.with(|forced| forced.borrow_mut().pop_front()) {
+            return value;
+        }
+        STATE.with(|state| {
+            // SplitMix64
+            let s = state.get().wrapping_add(0x9E3779B97F4A7C15);
+            state.set(s);
+            let z = (s ^ (s >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
+            let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
+            z ^ (z >> 31)
+        })
+    }
+
+    pub trait Random {
+        fn from_u64(value: u64) -> Self;
+    }
+
+    macro_rules! impl_random {
+        ($($t:ty),*) => {
+            $( impl Random for $t { fn from_u64(value: u64) -> Self { value as $t } } )*
+        }
+    }
+
+    impl_random!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize);
+
+    impl Random for bool {
+        fn from_u64(value: u64) -> Self {
+            value & 1 != 0
+        }
+    }
+
+    impl Random for f64 {
+        fn from_u64(value: u64) -> Self {
+            (value >> 11) as f64 / (1u64 << 53) as f64
+        }
+    }
+
+    pub fn random<T: Random>() -> T {
+        T::from_u64(next())
+    }
+}
+
+/// Virtual UDP network. Sent datagrams are appended to an outbox, to be collected and delivered (or
+/// not) by the harness.
+pub mod net {
+    pub use std::net::*;
+
+    use std::cell::Cell;
+    use std::cell::RefCell;
+    use std::collections::HashMap;
+    use std::collections::VecDeque;
+    use std::io;
+
+    struct Socket {
+        peer: Option<SocketAddr>,
+        inbox: VecDeque<(SocketAddr, Box<[u8]>)>,
+    }
+
+    /// A datagram sent by a virtual socket.
+    pub struct Datagram {
+        pub src: SocketAddr,
+        pub dst: SocketAddr,
+        pub data: Box<[u8]>,
+    }
+
+    thread_local! {
+        static SOCKETS: RefCell<HashMap<SocketAddr, Socket>> = RefCell::new(HashMap::new());
+        static OUTBOX: RefCell<Vec<Datagram>> = RefCell::new(Vec::new());
+        static NEXT_PORT: Cell<u16> = Cell::new(1024);
+    }
+
+    /// Forgets all sockets and datagrams.
+    pub fn reset() {
+        SOCKETS.with(|sockets| *sockets.borrow_mut() = HashMap::new());
+        OUTBOX.with(|outbox| *outbox.borrow_mut() = Vec::new());
+        NEXT_PORT.with(|port| port.set(1024));
+    }
+
+    /// Takes all datagrams sent since the last call.
+    pub fn take_outbox() -> Vec<Datagram> {
+        OUTBOX.with(|outbox| std::mem::take(&mut *outbox.borrow_mut()))
+    }
+
+    /// Places a datagram in the receive buffer of the socket bound to `dst`, if there is one.
+    pub fn inject(src: SocketAddr, dst: SocketAddr, data: &[u8]) -> bool {
+        SOCKETS.with(|sockets| {
+            if let Some(socket) = sockets.borrow_mut().get_mut(&dst) {
+                if socket.peer.map_or(true, |peer| peer == src) {
+                    socket.inbox.push_back((src, data.into()));
+                    return true;
+                }
+            }
+            return false;
+        })
+    }
+
+    /// Returns the number of datagrams waiting in the receive buffer of the socket bound to `dst`.
+    pub fn inbox_len(dst: SocketAddr) -> usize {
+        SOCKETS.with(|sockets| sockets.borrow().get(&dst).map_or(0, |socket| socket.inbox.len()))
+    }
+
+    #[derive(Debug)]
+    pub struct UdpSocket {
+        local_addr: SocketAddr,
+    }
+
+    impl UdpSocket {
+        pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
+            let mut local_addr = addr.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput)?;
+
+            if local_addr.port() == 0 {
+                let port = NEXT_PORT.with(|next_port| {
+                    let port = next_port.get();
+                    next_port.set(port.checked_add(1).unwrap_or(1024));
+                    port
+                });
+                local_addr.set_port(port);
+            }
+
+            if local_addr.ip().is_unspecified() {
+                local_addr.set_ip(match local_addr.ip() {
+                    IpAddr::V4(_) => IpAddr::V4(Ipv4Addr::LOCALHOST),
+                    IpAddr::V6(_) => IpAddr::V6(Ipv6Addr::LOCALHOST),
+                });
+            }
+
+            SOCKETS.with(|sockets| {
+                let mut sockets = sockets.borrow_mut();
+                if sockets.contains_key(&local_addr) {
+                    return Err(io::ErrorKind::AddrInUse.into());
+                }
+                sockets.insert(local_addr, Socket { peer: None, inbox: VecDeque::new() });
+                Ok(Self { local_addr })
+            })
+        }
+
+        pub fn set_nonblocking(&self, _nonblocking: bool) -> io::Result<()> {
+            Ok(())
+        }
+
+        pub fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
+            let peer = addr.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput)?;
+            SOCKETS.with(|sockets| {
+                if let Some(socket) = sockets.borrow_mut().get_mut(&self.local_addr) {
+                    socket.peer = Some(peer);
+                }
+            });
+            Ok(())
+        }
+
+        pub fn local_addr(&self) -> io::Result<SocketAddr> {
+            Ok(self.local_addr)
+        }
+
+        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+            SOCKETS.with(|sockets| sockets.borrow().get(&self.local_addr).and_then(|socket| socket.peer))
+                .ok_or(io::ErrorKind::NotConnected.into())
+        }
+
+        pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
+            let dst = addr.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput)?;
+            OUTBOX.with(|outbox| {
+                outbox.borrow_mut().push(Datagram { src: self.local_addr, dst, data: data.into() });
+            });
+            Ok(data.len())
+        }
+
+        pub fn send(&self, data: &[u8]) -> io::Result<usize> {
+            let dst = self.peer_addr()?;
+            self.send_to(data, dst)
+        }
+
+        pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+            SOCKETS.with(|sockets| {
+                let mut sockets = sockets.borrow_mut();
+                let socket = sockets.get_mut(&self.local_addr).ok_or(io::ErrorKind::NotConnected)?;
+                let (src, data) = socket.inbox.pop_front().ok_or(io::ErrorKind::WouldBlock)?;
+                let len = data.len().min(buf.len());
+                buf[..len].copy_from_slice(&data[..len]);
+                Ok((len, src))
+            })
+        }
+
+        pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
+            self.recv_from(buf).map(|(len, _)| len)
+        }
+    }
+
+    impl Drop for UdpSocket {
+        fn drop(&mut self) {
+            let _ = SOCKETS.try_with(|sockets| sockets.borrow_mut().remove(&self.local_addr));
+        }
+    }
+}
-- 
2.43.0


From f9d881e65405993299eda66b8752e6f5fbbd75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 02/33] fix: do not assert that frames were sent between
 nofeedback expirations

---
 src/half_connection/send_rate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..244a0ab 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -329,8 +329,8 @@ impl SendRateComp {
                         self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
                     }
                 } else {
-                    // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
+                    // In slow start, but no feedback has been received. The timer may expire
+                    // repeatedly without any frames having been sent in the meantime.
 
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
-- 
2.43.0


From a0988188a6cdfaf8c9bac796cf54ccde4b20dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 03/33] fix: ignore packet ids of more than 20 bits in sync and
 ack frames

A 32-bit id never equals the masked id which PacketReceiver::resynchronize() and
PacketSender::acknowledge() walk towards, so that a single frame made them loop forever or unwrap
an empty window entry.
---
 src/half_connection/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index a7f0739..3b912e1 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -1,6 +1,7 @@
 
 use crate::SendMode;
 use crate::frame;
+use crate::packet_id;
 
 #[cfg(not(uflow_verif))]
 use std::time;
@@ -151,7 +152,9 @@ impl HalfConnection {
         }
 
         if let Some(next_packet_id) = frame.next_packet_id {
-            self.packet_receiver.resynchronize(next_packet_id);
+            if packet_id::is_valid(next_packet_id) {
+                self.packet_receiver.resynchronize(next_packet_id);
+            }
         }
 
         self.sync_reply = true;
@@ -165,7 +168,10 @@ impl HalfConnection {
         }
 
         self.frame_queue.advance_transfer_window(frame.frame_window_base_id, rtt_ms);
-        self.packet_sender.acknowledge(frame.packet_window_base_id);
+
+        if packet_id::is_valid(frame.packet_window_base_id) {
+            self.packet_sender.acknowledge(frame.packet_window_base_id);
+        }
     }
 
     pub fn step(&mut self) {
-- 
2.43.0


From 4239f0947620dfafebcbed7ffd4c02dd66297107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 04/33] fix: skip packets rejected for lack of memory instead
 of unwrapping their data

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..0b67c98 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // A packet without data was rejected for lack of memory, and is skipped
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From 9d08fedb35d4e7b8b01a4c86986010f4db6eca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 05/33] fix: do not advance the receive window over undelivered
 packets

---
 src/half_connection/packet_receiver/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 0b67c98..c9c0a5c 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -385,11 +385,15 @@ impl PacketReceiver {
                     let window_parent_lead = window_entry.window_parent_lead as u32;
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
+                    if self.data_flags[flags_index] & flag_bit != 0 {
+                        // This packet awaits delivery. That cannot be the case unless the parent
+                        // leads sent by the remote host are inconsistent. Stop advancement here.
+                        break;
+                    }
+
                     if window_parent_lead == 0 || window_parent_lead > window_delta {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
-                        // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From 6a4505be7b2cc9874bb0b72b382d84812949dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 06/33] fix: discard stale pending fragments from the pending
 queue

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 3b912e1..bfa9ac2 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -415,7 +415,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -432,7 +432,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From 8fa56662a1cdef36aaf77a921e0b5af9738430b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 07/33] fix: bound the search for the inverse of the TCP
 throughput equation

---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 244a0ab..684625c 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -30,10 +30,14 @@ fn eval_tcp_throughput(rtt: f64, p: f64) -> u32 {
 fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
     let delta = (target_rate_bps as f64 * 0.05) as u32;
 
+    // The target may lie outside of the range of the equation (e.g. if rtt is zero), in which case
+    // the search converges to one of the endpoints
+    const MAX_ITERATIONS: usize = 64;
+
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    for _ in 0 .. MAX_ITERATIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +60,8 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    return b;
 }
 
 #[derive(Debug,PartialEq)]
-- 
2.43.0


From c942dc85df30b848b7236af403b315238a908b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 08/33] fix: always retain the latest receive rate

---
 src/half_connection/recv_rate_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..3cf6e0f 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -53,14 +53,15 @@ impl RecvRateSet {
     }
 
     pub fn rate_limited_update(&mut self, now_ms: u64, recv_rate: u32, rtt_ms: u64) -> u32 {
+        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+
+        // The latest value is always retained, even if the RTT is zero
         self.entries.push(RecvEntry {
             value: recv_rate,
             timestamp_ms: now_ms,
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
-
         return self.max();
     }
 
-- 
2.43.0


From b9c65f32fac91bcffb4989c375db274b2545bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 09/33] fix: saturate send rate and timer arithmetic

---
 src/half_connection/send_rate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 684625c..abedc6b 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -258,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -285,7 +285,7 @@ impl SendRateComp {
         self.send_rate = self.send_rate.min(self.max_send_rate);
 
         // Restart nofeedback timer
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
@@ -328,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
@@ -366,7 +366,7 @@ impl SendRateComp {
         // This may or may not be the intended behavior.
         let rto_s = self.update_rto(self.rtt_s.unwrap_or(0.0), self.send_rate);
 
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
-- 
2.43.0


From 50777f4c63066ef29faa1ab6e57f95e8a3283baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 10/33] fix: keep the send rate within its bounds when the
 nofeedback timer expires

---
 src/half_connection/send_rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index abedc6b..cc9328f 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -354,7 +354,7 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    self.send_rate = state.send_rate_tcp.min(new_limit).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             _ => panic!()
-- 
2.43.0


From 7db7f9518214f67677cec1a2ec61209df22eb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 11/33] fix: do not start below the minimum send rate when the
 RTT is large

---
 src/half_connection/send_rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index cc9328f..1b1a4ed 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -114,7 +114,7 @@ pub struct SendRateComp {
 }
 
 fn compute_initial_send_rate(rtt_s: f64) -> u32 {
-    (INITIAL_TCP_WINDOW as f64 / rtt_s) as u32
+    ((INITIAL_TCP_WINDOW as f64 / rtt_s) as u32).max(MINIMUM_RATE)
 }
 
 fn compute_initial_loss_send_rate(rtt_s: f64) -> u32 {
-- 
2.43.0


From 075e336f9cacce431777153633ac5ad7cbdbeb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 12/33] fix: do not generate feedback from repeated
 acknowledgements

---
 src/half_connection/frame_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..2222d2e 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -282,6 +282,7 @@ impl FrameQueue {
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
+        let mut newly_acked = false;
 
         let mut bitfield_size = 0;
         for i in (0 .. 32).rev() {
@@ -326,6 +327,7 @@ impl FrameQueue {
                 // Receiver has received this packet
                 if sent_frame.acked == false {
                     sent_frame.acked = true;
+                    newly_acked = true;
 
                     // Mark each fragment acknowledged and clear the list
                     let fragment_refs = std::mem::take(&mut sent_frame.fragment_refs);
@@ -350,6 +352,11 @@ impl FrameQueue {
             }
         }
 
+        if !newly_acked {
+            // Nothing but a copy of previous acknowledgements
+            return;
+        }
+
         // Add to pending feedback data
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
-- 
2.43.0


From 527e034c0e674feb67f02dd0a835f9cece4a71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 13/33] fix: start the client's active timeout when the
 connection is established

---
 src/client/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 5f5f8be..e49cb11 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -399,7 +399,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -457,7 +457,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                         disconnect_signal: None,
                     });
                 }
@@ -597,7 +597,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
-- 
2.43.0


From 44c295f0a912f2f1a3e085bce3b6426f7a60d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 14/33] fix: do not time out while the server repeats its
 handshake reply

---
 src/client/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index e49cb11..debed41 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -462,7 +462,7 @@ impl Client {
                     });
                 }
             }
-            State::Active(ref state) => {
+            State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
                 // the nonce ack matches ours (and ignore it otherwise). This case is only
                 // encountered when our initial ACK was dropped - all that matters is that the
@@ -473,6 +473,8 @@ impl Client {
                         nonce_ack: frame.nonce,
                     });
                     let _ = self.socket.send(&reply.write());
+
+                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
                 }
             }
             _ => (),
-- 
2.43.0


From 9a5039f49059e4c82da02f1f5d0f24255220c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 15/33] fix: remember sent frames for as long as the
 retransmission timeout

---
 src/half_connection/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bfa9ac2..c9e419b 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -186,8 +186,10 @@ impl HalfConnection {
         self.rtt_ms = rtt_ms;
         self.rto_ms = rto_ms;
 
-        // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        // Forget old frame data. The RTO is at least four times the RTT estimate, and grows as the
+        // send rate is reduced, so that frames will eventually be remembered for long enough to
+        // be acknowledged should the RTT increase.
+        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From a70edb48a3d1ff6afb66343d2064d10d442ce498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 16/33] fix: carry fractional bytes of the flush allocation
 over to the next step

---
 src/half_connection/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index c9e419b..b627cbe 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -81,6 +81,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_rem: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -109,6 +110,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_rem: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -217,10 +219,20 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
-            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
+            let new_bytes_exact = send_rate * delta_time + self.flush_alloc_rem;
+            let new_bytes = new_bytes_exact.floor() as isize;
+            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).floor() as isize;
 
-            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
+            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes);
+
+            // Carry fractional bytes over to the next call, so that neither a low send rate nor a
+            // short step interval affects the long-term average
+            self.flush_alloc_rem = new_bytes_exact - new_bytes_exact.floor();
+
+            if self.flush_alloc >= alloc_max {
+                self.flush_alloc = alloc_max;
+                self.flush_alloc_rem = 0.0;
+            }
 
             //println!("dt: {}s, rtt: {:?}s, rate: {}B/s, new: {}B, max: {}B, val: {}B",
             //       delta_time, rtt_s, send_rate, new_bytes, alloc_max, self.flush_alloc);
-- 
2.43.0


From 56ada11ee4585ab2ca19b80b4ed4d2b83c06d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 17/33] fix: fill the flush allocation prior to each flush

---
 src/half_connection/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index b627cbe..e918715 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -209,6 +209,13 @@ impl HalfConnection {
     }
 
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
+        // Account for the time elapsed since the previous step beforehand. Otherwise, a full
+        // allocation could be sent twice in a row: once from this call, and once following the
+        // next step.
+        if self.time_last_flushed.is_some() {
+            self.fill_flush_alloc(time::Instant::now());
+        }
+
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
     }
-- 
2.43.0


From e922f13dab01bcda3bd451ec12f3d6ded2bfca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 18/33] fix: never send a TimeSensitive packet after the flush
 it was meant for

---
 src/half_connection/emit.rs          | 22 ++++++++++++++++++++++
 src/half_connection/frame_queue.rs   |  4 ++++
 src/half_connection/mod.rs           | 13 +++++++++++++
 src/half_connection/packet_sender.rs | 22 +++++++++++++++++-----
 4 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index 18a9b33..fc89c88 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -113,6 +113,28 @@ impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
         return Ok(());
     }
 
+    // Returns Ok(()) if the next datagram can be added regardless of its size
+    // Returns Err(DataPushError) otherwise
+    pub fn prepare_push(&mut self) -> Result<(), DataPushError> {
+        let frame_size = self.in_progress_frame.as_ref().map_or(0, |next_frame| next_frame.fbuilder.size());
+        let frame_count = self.in_progress_frame.is_some() as u32;
+
+        if (self.flush_alloc - frame_size as isize) < 0 {
+            // Out of bandwidth
+            self.finalize();
+            self.frame_queue.mark_rate_limited();
+            return Err(DataPushError::SizeLimited);
+        }
+
+        if self.frame_queue.free_count() <= frame_count {
+            // Might exceed window
+            self.finalize();
+            return Err(DataPushError::WindowLimited);
+        }
+
+        return Ok(());
+    }
+
     pub fn finalize(&mut self) {
         if let Some(next_frame) = self.in_progress_frame.take() {
             let frame_bytes = next_frame.fbuilder.build();
diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index 2222d2e..599c940 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -229,6 +229,10 @@ impl FrameQueue {
         return self.next_id().wrapping_sub(self.window.base_id) < self.window.size;
     }
 
+    pub fn free_count(&self) -> u32 {
+        self.window.size.saturating_sub(self.next_id().wrapping_sub(self.window.base_id))
+    }
+
     pub fn next_id(&self) -> u32 {
         self.frame_log.next_id()
     }
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index e918715..3e325b7 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -417,6 +417,19 @@ impl HalfConnection {
 
         loop {
             if self.pending_queue.is_empty() {
+                if !self.packet_sender.can_emit_packet(flush_id) {
+                    break;
+                }
+
+                // Leave the packet in the send queue unless it can be sent right now. Otherwise, a
+                // TimeSensitive packet might be sent by a later flush.
+                match dfe.prepare_push() {
+                    // Being window-limited does not preclude further sends
+                    Err(emit::DataPushError::WindowLimited) => return Ok(()),
+                    Err(emit::DataPushError::SizeLimited) => return Err(()),
+                    Ok(_) => (),
+                }
+
                 if let Some((packet_rc, resend)) = self.packet_sender.emit_packet(flush_id) {
                     let pending_packet_ref = packet_rc.borrow();
 
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..0f8a33c 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -144,9 +144,9 @@ impl PacketSender {
         self.packet_send_queue.push_back(PacketSendEntry::new(data, channel_id, mode, flush_id));
     }
 
-    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
-    // the maximum transfer window.
-    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+    // Drops stale packets from the front of the send queue, and returns true if the next packet
+    // respects both the maximum allocation limit, and the maximum transfer window.
+    pub fn can_emit_packet(&mut self, flush_id: u32) -> bool {
         while let Some(packet) = self.packet_send_queue.front() {
             match packet.mode {
                 SendMode::TimeSensitive => {
@@ -163,17 +163,29 @@ impl PacketSender {
 
         if let Some(packet) = self.packet_send_queue.front() {
             if packet_id::sub(self.next_id, self.base_id) >= self.window_size {
-                return None;
+                return false;
             }
 
             let packet_alloc_size = alloc_size(packet.data.len());
 
             if self.alloc + packet_alloc_size > self.max_alloc {
-                return None;
+                return false;
             }
 
+            return true;
+        }
+
+        return false;
+    }
+
+    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
+    // the maximum transfer window.
+    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+        if self.can_emit_packet(flush_id) {
             let packet = self.packet_send_queue.pop_front().unwrap();
 
+            let packet_alloc_size = alloc_size(packet.data.len());
+
             let sequence_id = self.next_id;
             let ref mut channel = self.channels[packet.channel_id as usize];
 
-- 
2.43.0


From 26e0421210d10e890dab242e5263c413a96a986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 19/33] fix: enforce both connection limits of the server

---
 src/server/mod.rs           | 10 +++++++++-
 src/server/remote_client.rs |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index ff6bc02..a71d1e1 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -259,8 +259,16 @@ impl Server {
             return;
         }
 
+        // Each pending connection may become active at any time, and must be accounted for now:
+        // once it has been accepted, a handshake can no longer be refused.
+        let active_count = self
+            .clients
+            .values()
+            .filter(|client| client.borrow().is_pending_or_active())
+            .count();
+
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || active_count >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..66954f5 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -49,6 +49,13 @@ impl RemoteClient {
         }
     }
 
+    pub (super) fn is_pending_or_active(&self) -> bool {
+        match self.state {
+            State::Pending(_) | State::Active(_) => true,
+            _ => false,
+        }
+    }
+
     /// Enqueues a packet for delivery to this client. The packet will be sent on the given channel
     /// according to the specified mode.
     ///
-- 
2.43.0


From f657e04868a56c53524213bb98c918080cded3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 20/33] fix: release assembled packets with the layout they
 were allocated with

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From 9e4e9bb3e5edf9e20f7ba794d05bd0d8dab34266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 21/33] fix: bound the number of pending acknowledgement groups

---
 src/half_connection/frame_ack_queue.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..dc240b9 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -32,6 +32,7 @@ impl ReceiveWindow {
 
 pub struct FrameAckQueue {
     entries: std::collections::VecDeque<frame::AckGroup>,
+    max_entries: usize,
     receive_window: ReceiveWindow,
 }
 
@@ -39,6 +40,9 @@ impl FrameAckQueue {
     pub fn new(size: u32, base_id: u32) -> Self {
         Self {
             entries: std::collections::VecDeque::new(),
+            // Group IDs are spaced by at least 32, and a sender does not remember more frames than
+            // twice the size of the transfer window
+            max_entries: (2 * size as usize) / 32 + 2,
             receive_window: ReceiveWindow::new(base_id, size),
         }
     }
@@ -80,6 +84,11 @@ impl FrameAckQueue {
                     nonce: nonce,
                 });
             }
+
+            if self.entries.len() > self.max_entries {
+                // The sender has forgotten these frames already
+                self.entries.pop_front();
+            }
         }
     }
 
-- 
2.43.0


From 8f05c45bcd4a56dc1711b143cb9c6038720653e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 22/33] fix: do not assert that packets fit the receive
 allocation claimed by the remote host

---
 src/half_connection/packet_sender.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 0f8a33c..c0b1ef2 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -137,7 +137,6 @@ impl PacketSender {
     // Places a user packet on the send queue.
     pub fn enqueue_packet(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode, flush_id: u32) {
         debug_assert!(data.len() <= MAX_PACKET_SIZE);
-        debug_assert!(data.len() <= self.max_alloc);
         debug_assert!((channel_id as usize) < CHANNEL_COUNT);
 
         self.total_size += data.len();
-- 
2.43.0


From 2b3a9ffed5446d56e84d3c25034415a215426f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 23/33] fix: include packets sent prior to connecting in the
 client's send buffer size

---
 src/client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index debed41..6f9ab09 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -389,6 +389,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends.iter().map(|send| send.data.len()).sum(),
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From 7a0e925aa75e1b240a257f447b32c3d19189768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 24/33] fix: do not truncate large values of max_send_rate

---
 src/client/mod.rs | 2 +-
 src/server/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6f9ab09..4e5742f 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -433,7 +433,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index a71d1e1..5aaa0dd 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -392,7 +392,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From c2418ad2b9ba6c23c7a108d8f0a158353e65f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 25/33] fix: ignore the packet window of ack frames from the
 past

---
 src/half_connection/frame_queue.rs | 8 ++++++++
 src/half_connection/mod.rs         | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index 599c940..b2468a5 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -365,6 +365,14 @@ impl FrameQueue {
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
 
+    // Returns false if the transfer window has already advanced past the given base ID, i.e. if it
+    // was sent by the receiver prior to some other base ID which has been handled already.
+    pub fn is_base_id_current(&self, new_base_id: u32) -> bool {
+        let window_base_id = self.window.base_id;
+
+        new_base_id.wrapping_sub(window_base_id) <= self.next_id().wrapping_sub(window_base_id)
+    }
+
     pub fn can_advance_transfer_window(&mut self, new_base_id: u32) -> bool {
         let log_next_id = self.frame_log.next_id();
         let window_base_id = self.window.base_id;
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 3e325b7..a334a74 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -169,9 +169,13 @@ impl HalfConnection {
             self.frame_queue.acknowledge_group(frame_ack.clone(), rtt_ms);
         }
 
+        // The packet window base ID of an old ack frame is ambiguous, as packet IDs wrap around
+        // much sooner than frame IDs
+        let is_current = self.frame_queue.is_base_id_current(frame.frame_window_base_id);
+
         self.frame_queue.advance_transfer_window(frame.frame_window_base_id, rtt_ms);
 
-        if packet_id::is_valid(frame.packet_window_base_id) {
+        if is_current && packet_id::is_valid(frame.packet_window_base_id) {
             self.packet_sender.acknowledge(frame.packet_window_base_id);
         }
     }
-- 
2.43.0


From 37e1691472a3691acf4f368a0645dc8f0a27eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 26/33] fix: accept any value of max_receive_alloc

---
 src/half_connection/packet_receiver/assembly_window/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
-- 
2.43.0


From d8cf95da28d73cd5e624e0016411c3bfec2649aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 27/33] fix: accept any value of active_timeout_ms

---
 src/client/mod.rs | 10 +++++-----
 src/server/mod.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 4e5742f..814f2f1 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -458,7 +458,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
@@ -475,7 +475,7 @@ impl Client {
                     });
                     let _ = self.socket.send(&reply.write());
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
             }
             _ => (),
@@ -569,7 +569,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -579,7 +579,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -589,7 +589,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 5aaa0dd..acd5ff8 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -408,7 +408,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -520,7 +520,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -542,7 +542,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -564,7 +564,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From ed9487790d3b79e51ec188262445e6a76d36fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 28/33] fix: do not start above the maximum send rate

---
 src/half_connection/send_rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1b1a4ed..f1d5e2a 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -130,7 +130,7 @@ impl SendRateComp {
             nofeedback_idle: false,
 
             mode: SendRateMode::AwaitSend,
-            send_rate: MSS as u32,
+            send_rate: (MSS as u32).min(max_send_rate),
             max_send_rate: max_send_rate,
 
             recv_rate_set: recv_rate_set::RecvRateSet::new(),
-- 
2.43.0


From 04df128569d27978e29962dd3ee6364f87d3420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 29/33] fix: do not complete a handshake with a nonce other
 than the connection's

---
 src/client/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 814f2f1..bfa9b04 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -120,6 +120,7 @@ struct PendingState {
 
 struct ActiveState {
     local_nonce: u32,
+    remote_nonce: u32,
     half_connection: half_connection::HalfConnection,
     timeout_time_ms: u64,
     disconnect_signal: Option<DisconnectMode>,
@@ -457,6 +458,7 @@ impl Client {
 
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
+                        remote_nonce: frame.nonce,
                         half_connection,
                         timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
@@ -465,11 +467,15 @@ impl Client {
             }
             State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
-                // the nonce ack matches ours (and ignore it otherwise). This case is only
-                // encountered when our initial ACK was dropped - all that matters is that the
+                // both nonces match those of this connection (and ignore it otherwise). This case is
+                // only encountered when our initial ACK was dropped - all that matters is that the
                 // server receives an ACK.
+                //
+                // If the server's nonce differs, a duplicate of our SYN has caused the server to
+                // begin another handshake, having forgotten this connection already. It must not
+                // be completed, because this connection does not start over.
 
-                if frame.nonce_ack == state.local_nonce {
+                if frame.nonce_ack == state.local_nonce && frame.nonce == state.remote_nonce {
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From 2539d295323658644f35392e8b7dcc71570a6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 30/33] fix: do not forget frames before there is an RTT
 estimate

---
 src/half_connection/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index a334a74..4bd65f7 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -194,8 +194,11 @@ impl HalfConnection {
 
         // Forget old frame data. The RTO is at least four times the RTT estimate, and grows as the
         // send rate is reduced, so that frames will eventually be remembered for long enough to
-        // be acknowledged should the RTT increase.
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
+        // be acknowledged should the RTT increase. As long as there is no RTT estimate, nothing is
+        // forgotten: it is unknown how long an acknowledgement takes.
+        if self.send_rate_comp.rtt_ms().is_some() {
+            self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
+        }
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From d04a1b8ea7dfcb365214e8e74d92e8adeb8863c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 31/33] Verification hooks: failing socket operations

---
 src/verif.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 0561f97..06e675e 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -228,7 +228,7 @@ pub mod net {
 
     struct Socket {
         peer: Option<SocketAddr>,
-        inbox: VecDeque<(SocketAddr, Box<[u8]>)>,
+        inbox: VecDeque<Result<(SocketAddr, Box<[u8]>), io::ErrorKind>>,
     }
 
     /// A datagram sent by a virtual socket.
@@ -242,6 +242,7 @@ pub mod net {
         static SOCKETS: RefCell<HashMap<SocketAddr, Socket>> = RefCell::new(HashMap::new());
         static OUTBOX: RefCell<Vec<Datagram>> = RefCell::new(Vec::new());
         static NEXT_PORT: Cell<u16> = Cell::new(1024);
+        static FAIL_SENDS: Cell<u32> = Cell::new(0);
     }
 
     /// Forgets all sockets and datagrams.
@@ -249,6 +250,7 @@ pub mod net {
         SOCKETS.with(|sockets| *sockets.borrow_mut() = HashMap::new());
         OUTBOX.with(|outbox| *outbox.borrow_mut() = Vec::new());
         NEXT_PORT.with(|port| port.set(1024));
+        FAIL_SENDS.with(|fail_sends| fail_sends.set(0));
     }
 
     /// Takes all datagrams sent since the last call.
@@ -261,7 +263,7 @@ pub mod net {
         SOCKETS.with(|sockets| {
             if let Some(socket) = sockets.borrow_mut().get_mut(&dst) {
                 if socket.peer.map_or(true, |peer| peer == src) {
-                    socket.inbox.push_back((src, data.into()));
+                    socket.inbox.push_back(Ok((src, data.into())));
                     return true;
                 }
             }
@@ -269,6 +271,22 @@ pub mod net {
         })
     }
 
+    /// Makes a receive operation of the socket bound to `dst` fail once, after the datagrams it holds have been read.
+    pub fn inject_error(dst: SocketAddr, kind: io::ErrorKind) -> bool {
+        SOCKETS.with(|sockets| {
+            if let Some(socket) = sockets.borrow_mut().get_mut(&dst) {
+                socket.inbox.push_back(Err(kind));
+                return true;
+            }
+            return false;
+        })
+    }
+
+    /// Makes the next `count` send operations fail.
+    pub fn fail_sends(count: u32) {
+        FAIL_SENDS.with(|fail_sends| fail_sends.set(count));
+    }
+
     /// Returns the number of datagrams waiting in the receive buffer of the socket bound to `dst`.
     pub fn inbox_len(dst: SocketAddr) -> usize {
         SOCKETS.with(|sockets| sockets.borrow().get(&dst).map_or(0, |socket| socket.inbox.len()))
@@ -334,6 +352,11 @@ pub mod net {
 
         pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
             let dst = addr.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput)?;
+            let fail_sends = FAIL_SENDS.with(|fail_sends| fail_sends.get());
+            if fail_sends > 0 {
+                FAIL_SENDS.with(|cell| cell.set(fail_sends - 1));
+                return Err(io::ErrorKind::ConnectionRefused.into());
+            }
             OUTBOX.with(|outbox| {
                 outbox.borrow_mut().push(Datagram { src: self.local_addr, dst, data: data.into() });
             });
@@ -349,7 +372,7 @@ pub mod net {
             SOCKETS.with(|sockets| {
                 let mut sockets = sockets.borrow_mut();
                 let socket = sockets.get_mut(&self.local_addr).ok_or(io::ErrorKind::NotConnected)?;
-                let (src, data) = socket.inbox.pop_front().ok_or(io::ErrorKind::WouldBlock)?;
+                let (src, data) = socket.inbox.pop_front().ok_or(io::ErrorKind::WouldBlock)??;
                 let len = data.len().min(buf.len());
                 buf[..len].copy_from_slice(&data[..len]);
                 Ok((len, src))
-- 
2.43.0


From df11e043dc93b2c27ae6726bdc86037043516deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 32/33] fix: do not let acknowledgements starve data at a low
 send rate

An acknowledgement is larger than the minimum send rate allows per second. As
acks were always sent first, an endpoint whose peer kept sending data spent its
whole allocation on them, never sent data, and thus never raised its rate.
---
 src/half_connection/mod.rs | 53 ++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 4bd65f7..eff77e5 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -84,6 +84,8 @@ pub struct HalfConnection {
     flush_alloc_rem: f64,
     flush_id: u32,
 
+    acks_exhausted_alloc: bool,
+
     sync_reply: bool,
     sync_keepalive_interval_ms: Option<u64>,
 }
@@ -113,6 +115,8 @@ impl HalfConnection {
             flush_alloc_rem: 0.0,
             flush_id: 0,
 
+            acks_exhausted_alloc: false,
+
             sync_reply: false,
             sync_keepalive_interval_ms: config.keepalive_interval_ms,
         }
@@ -255,19 +259,46 @@ impl HalfConnection {
     }
 
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
-        match self.emit_ack_frames(sink) {
-            Err(_) => return,
-            Ok(_) => (),
-        }
+        let may_send = self.flush_alloc >= 0;
 
-        match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
-            Err(_) => return,
-            Ok(_) => (),
-        }
+        if self.acks_exhausted_alloc {
+            // At a low send rate, acks alone may use up each and every allocation. Let everything
+            // else go first for once, as the send rate could never be raised otherwise.
+            self.acks_exhausted_alloc = !may_send;
+
+            match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
+
+            match self.emit_sync_frame(now_ms, rto_ms, sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
+
+            match self.emit_ack_frames(sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
+        } else {
+            let result = self.emit_ack_frames(sink);
+
+            self.acks_exhausted_alloc = may_send && self.flush_alloc < 0;
+
+            match result {
+                Err(_) => return,
+                Ok(_) => (),
+            }
 
-        match self.emit_sync_frame(now_ms, rto_ms, sink) {
-            Err(_) => return,
-            Ok(_) => (),
+            match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
+
+            match self.emit_sync_frame(now_ms, rto_ms, sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
         }
     }
 
-- 
2.43.0


From 64b51947932923d2e16eddc6b1874c50fbf9ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 33/33] fix: ignore frames acknowledged before when judging
 whether sending was rate limited

An ack group which repeats a rate limited frame along with a new frame made the
feedback of the new one count as rate limited.
---
 src/half_connection/frame_queue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index b2468a5..e1c46be 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -325,7 +325,9 @@ impl FrameQueue {
 
             let ref mut sent_frame = self.frame_log.get_frame_mut(frame_id).unwrap();
 
-            rate_limited |= sent_frame.rate_limited;
+            if sent_frame.acked == false {
+                rate_limited |= sent_frame.rate_limited;
+            }
 
             if ack.bitfield & (1 << i) != 0 {
                 // Receiver has received this packet
-- 
2.43.0

