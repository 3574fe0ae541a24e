From a5d004364497305a1e890eae27ae16ed792aa8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 01/25] fix: keep the existing session when SESSION_INIT names
 a duplicate id

The session map entry was replaced before the duplicate was detected, which
destroyed the existing session and left a new one in state DEINIT.
---
 src/device.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 9e8b915..eeda730 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -356,20 +356,18 @@ impl Device {
         log::debug!("  session_id=0x{:x}", session_id);
         log::debug!("  session_type={:?}", session_type);
 
-        let status = if self.sessions.len() >= MAX_SESSION {
+        let status = if self.sessions.contains_key(&session_id) {
+            uci::Status::ErrorSessionDuplicate
+        } else if self.sessions.len() >= MAX_SESSION {
             uci::Status::ErrorMaxSessionsExceeded
         } else {
-            match self.sessions.insert(
+            self.sessions.insert(
                 session_id,
                 Session::new(session_id, session_type, self.handle, self.tx.clone()),
-            ) {
-                Some(_) => uci::Status::ErrorSessionDuplicate,
-                None => {
-                    // Should not fail
-                    self.session_mut(session_id).unwrap().init();
-                    uci::Status::Ok
-                }
-            }
+            );
+            // Should not fail
+            self.session_mut(session_id).unwrap().init();
+            uci::Status::Ok
         };
 
         SessionInitRsp { status }
-- 
2.43.0


From 422d36a6064d869a72e037b70f4775fa773adfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 02/25] fix: stop ranging when the multicast list of an active
 session is emptied

The session moved to IDLE while its ranging timer kept running and the device
stayed ACTIVE; starting the session again then panicked.
---
 src/device.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index eeda730..68ebddc 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -783,10 +783,18 @@ impl Device {
         // SESSION_STATE_IDLE by sending the SESSION_STATUS_NTF with Reason Code
         // set to ERROR_INVALID_NUM_OF_CONTROLEES.
         if session.app_config.dst_mac_address.is_empty() {
+            let was_active = session.state == SessionState::SessionStateActive;
+            session.stop_ranging_task();
             session.set_state(
                 SessionState::SessionStateIdle,
                 ReasonCode::ErrorInvalidNumOfControlees,
-            )
+            );
+            if was_active {
+                self.n_active_sessions -= 1;
+                if self.n_active_sessions == 0 {
+                    self.set_state(DeviceState::DeviceStateReady);
+                }
+            }
         }
         SessionUpdateControllerMulticastListRsp {
             status,
-- 
2.43.0


From 0816039d5d287c52df8013c4b28bf1a1cc09ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 03/25] fix: ignore ranging events that outlive their device or
 session

A ranging event already queued when the device disconnects, is reset, or the
session is stopped or removed made the event loop panic or ranged an idle
session.
---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 560f28d..0203f5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,8 +407,17 @@ impl Pica {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        let device = self.get_device(device_handle).unwrap();
-        let session = device.session(session_id).unwrap();
+        // The device may have been disconnected, or the session stopped or
+        // removed, after the ranging event was queued.
+        let Some(device) = self.get_device(device_handle) else {
+            return;
+        };
+        let Some(session) = device.session(session_id) else {
+            return;
+        };
+        if session.session_state() != SessionState::SessionStateActive {
+            return;
+        }
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
-- 
2.43.0


From 1a5d1657beb22b0735bbad4f30d263b209ca529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 04/25] fix: do not panic when ranging with a device whose
 connection just closed

The packet receiver is dropped before the Disconnect command is processed; a
ranging round in between made the event loop panic.
---
 src/lib.rs | 58 +++++++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0203f5b..8048e94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -479,39 +479,35 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-            peer_device
-                .tx
-                .send(
-                    DataMessageRcv {
-                        application_data: session.data().clone().into(),
-                        data_sequence_number: 0x01,
-                        pbf: PacketBoundaryFlag::Complete,
-                        session_handle: session_id,
-                        source_address: session.app_config.device_mac_address.unwrap().into(),
-                        status: uci::Status::Ok,
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            // An error here means that the peer is disconnecting, ignore it.
+            let _ = peer_device.tx.send(
+                DataMessageRcv {
+                    application_data: session.data().clone().into(),
+                    data_sequence_number: 0x01,
+                    pbf: PacketBoundaryFlag::Complete,
+                    session_handle: session_id,
+                    source_address: session.app_config.device_mac_address.unwrap().into(),
+                    status: uci::Status::Ok,
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
         }
         if session.is_session_info_ntf_enabled() {
-            device
-                .tx
-                .send(
-                    // TODO: support extended address
-                    ShortMacTwoWaySessionInfoNtf {
-                        sequence_number: session.sequence_number,
-                        session_token: session_id,
-                        rcr_indicator: 0,            //TODO
-                        current_ranging_interval: 0, //TODO
-                        two_way_ranging_measurements: measurements,
-                        vendor_data: vec![],
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            // An error here means that the device is disconnecting, ignore it.
+            let _ = device.tx.send(
+                // TODO: support extended address
+                ShortMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements,
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From 13679bc2aef783279022d70dcc13f7361010bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 05/25] fix: do not panic in notification tasks when the host
 is disconnected

Delayed notifications are sent by detached tasks which panicked when the
connection was closed in the meantime.
---
 src/device.rs  | 12 ++++++------
 src/session.rs |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 68ebddc..b4f14fc 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -148,12 +148,12 @@ impl Device {
         let tx = self.tx.clone();
         tokio::spawn(async move {
             time::sleep(Duration::from_millis(5)).await;
-            tx.send(
+            // An error here means that the host is disconnected, ignore it.
+            let _ = tx.send(
                 CoreDeviceStatusNtf { device_state }
                     .encode_to_vec()
                     .unwrap(),
-            )
-            .unwrap()
+            );
         });
     }
 
@@ -764,15 +764,15 @@ impl Device {
                         // sent before the response.
                         // TODO(#84) remove the sleep.
                         time::sleep(Duration::from_millis(5)).await;
-                        tx.send(
+                        // An error here means that the host is disconnected, ignore it.
+                        let _ = tx.send(
                             SessionUpdateControllerMulticastListNtf {
                                 controlee_status: controlee_status_ntf,
                                 session_token: session_handle,
                             }
                             .encode_to_vec()
                             .unwrap(),
-                        )
-                        .unwrap()
+                        );
                     });
                 }
             }
diff --git a/src/session.rs b/src/session.rs
index 656ad99..1ee2831 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -74,7 +74,8 @@ impl Session {
         let session_id = self.id;
         tokio::spawn(async move {
             time::sleep(Duration::from_millis(1)).await;
-            tx.send(
+            // An error here means that the host is disconnected, ignore it.
+            let _ = tx.send(
                 SessionStatusNtf {
                     session_token: session_id,
                     session_state,
@@ -82,8 +83,7 @@ impl Session {
                 }
                 .encode_to_vec()
                 .unwrap(),
-            )
-            .unwrap()
+            );
         });
     }
 
-- 
2.43.0


From bd212564670bbcda9eeb2c9f1173861dfabb3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 06/25] fix: do not panic when ranging with an extended MAC
 address

A host selecting MAC_ADDRESS_MODE 2 could panic the event loop; such peers are
now left out of the short address report.
---
 src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8048e94..8590d2f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -160,9 +160,9 @@ fn make_measurement(
     mac_address: &MacAddress,
     local: RangingMeasurement,
     remote: RangingMeasurement,
-) -> ShortAddressTwoWayRangingMeasurement {
+) -> Option<ShortAddressTwoWayRangingMeasurement> {
     if let MacAddress::Short(address) = mac_address {
-        ShortAddressTwoWayRangingMeasurement {
+        Some(ShortAddressTwoWayRangingMeasurement {
             mac_address: u16::from_le_bytes(*address),
             status: uci::Status::Ok,
             nlos: 0, // in Line Of Sight
@@ -177,9 +177,10 @@ fn make_measurement(
             aoa_destination_elevation_fom: 100,
             slot_index: 0,
             rssi: u8::MAX,
-        }
+        })
     } else {
-        panic!("Extended address is not supported.")
+        log::warn!("extended address {} is not supported", mac_address);
+        None
     }
 }
 
@@ -437,7 +438,7 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(mac_address, local, remote));
+                measurements.extend(make_measurement(mac_address, local, remote));
             }
         }
 
@@ -466,7 +467,7 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(&peer_mac_address, local, remote));
+                measurements.extend(make_measurement(&peer_mac_address, local, remote));
             }
 
             if device.can_start_data_transfer(session_id)
-- 
2.43.0


From 8dc647544143588bcf46679cb032202a6a83b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 07/25] fix: answer CORE_GET_DEVICE_INFO and CORE_SET_CONFIG
 while ranging

Both commands panicked the event loop unless the device was READY.
---
 src/device.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index b4f14fc..11f29cc 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -235,9 +235,7 @@ impl Device {
     }
 
     fn core_get_device_info(&self, _cmd: CoreGetDeviceInfoCmd) -> CoreGetDeviceInfoRsp {
-        // TODO: Implement a fancy build time state machine instead of crash at runtime
         log::debug!("[{}] GetDeviceInfo", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady);
         CoreGetDeviceInfoRsp {
             status: uci::Status::Ok,
             uci_version: UCI_VERSION,
@@ -267,7 +265,13 @@ impl Device {
 
     pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
         log::debug!("[{}] SetConfig", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady); // UCI 6.3
+        // UCI 6.3
+        if self.state != DeviceState::DeviceStateReady {
+            return CoreSetConfigRsp {
+                status: uci::Status::Rejected,
+                parameters: vec![],
+            };
+        }
 
         // [UCI] 6.3.1 Setting the Configuration
         // The UWBS shall respond with CORE_SET_CONFIG_RSP setting the Status
-- 
2.43.0


From d2fba9fd68a89ce50cec98fa54875a9a36617af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 08/25] fix: reject SET_APP_CONFIG for unsupported session
 types

The command panicked the event loop.
---
 src/device.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 11f29cc..3a208e3 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -423,10 +423,14 @@ impl Device {
             };
         };
 
-        assert!(
-            session.session_type == SessionType::FiraRangingSession
-                || session.session_type == SessionType::FiraRangingAndInBandDataSession
-        );
+        if session.session_type != SessionType::FiraRangingSession
+            && session.session_type != SessionType::FiraRangingAndInBandDataSession
+        {
+            return SessionSetAppConfigRsp {
+                cfg_status: Vec::new(),
+                status: uci::Status::Rejected,
+            };
+        }
 
         if session.state == SessionState::SessionStateActive {
             const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
-- 
2.43.0


From b29d70f2c346a759925946a48838eb25e034559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 09/25] fix: report addresses in unsupported MAC address mode 1
 as invalid

Configuring an address after selecting the mode panicked the event loop.
---
 src/app_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_config.rs b/src/app_config.rs
index 40ac595..8dcd058 100644
--- a/src/app_config.rs
+++ b/src/app_config.rs
@@ -199,14 +199,14 @@ impl AppConfig {
             uci::AppConfigTlvType::DeviceMacAddress => {
                 self.device_mac_address = Some(match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                     uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                 })
             }
             uci::AppConfigTlvType::DstMacAddress => {
                 let mac_address_size = match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => 2,
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                     uci::MacAddressMode::Mode2 => 8,
                 };
                 if value.len() != self.number_of_controlees as usize * mac_address_size {
-- 
2.43.0


From c2247174f4da7f373302f48f8ae4600d477e4641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 10/25] fix: answer malformed and unsupported commands with
 UNKNOWN_OID

Commands with a known group but an unknown, unsupported or malformed body, and
packets shorter than the UCI header, panicked the event loop instead of being
answered as documented in receive_packet.
---
 src/device.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 3a208e3..a88eb1a 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -1004,21 +1004,31 @@ impl Device {
             .unwrap();
         }
 
-        match cmd
-            .specialize()
-            .expect("Failed to parse Control packet child")
-        {
-            CorePacket(cmd) => match cmd.specialize().expect("Failed to parse Core packet child") {
+        // [UCI] 4.3.2 Exception Handling for Control Messages
+        // Response to the commands with an unknown or unsupported OID,
+        // and to malformed commands.
+        let unknown_oid = ControlPacket {
+            mt: uci::MessageType::Response,
+            gid: cmd.gid,
+            payload: vec![cmd.payload[0], 0, 1, uci::Status::UnknownOid.into()],
+        };
+
+        let Ok(cmd_child) = cmd.specialize() else {
+            return unknown_oid;
+        };
+
+        match cmd_child {
+            CorePacket(cmd) => match cmd.specialize().unwrap_or(CorePacketChild::None) {
                 CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                 CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                 CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                 CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                 CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
-                _ => unimplemented!("Unsupported Core oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
             SessionConfigPacket(cmd) => match cmd
                 .specialize()
-                .expect("Failed to parse Session Config packet child")
+                .unwrap_or(SessionConfigPacketChild::None)
             {
                 SessionInitCmd(cmd) => self.session_init(cmd).try_into().unwrap(),
                 SessionDeinitCmd(cmd) => self.session_deinit(cmd).try_into().unwrap(),
@@ -1030,30 +1040,27 @@ impl Device {
                     .session_update_controller_multicast_list(cmd)
                     .try_into()
                     .unwrap(),
-                _ => unimplemented!("Unsupported Session Config oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
             SessionControlPacket(cmd) => match cmd
                 .specialize()
-                .expect("Failed to parse Session Control packet child")
+                .unwrap_or(SessionControlPacketChild::None)
             {
                 SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
                 SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
                 SessionGetRangingCountCmd(cmd) => {
                     self.session_get_ranging_count(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Session Control oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
-            AndroidPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Android packet child")
-            {
+            AndroidPacket(cmd) => match cmd.specialize().unwrap_or(AndroidPacketChild::None) {
                 AndroidSetCountryCodeCmd(cmd) => {
                     self.android_set_country_code(cmd).try_into().unwrap()
                 }
                 AndroidGetPowerStatsCmd(cmd) => {
                     self.android_get_power_stats(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Android oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
             ControlPacketChild::None
                 if matches!(
@@ -1086,6 +1093,11 @@ impl Device {
     }
 
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
+        if packet.len() < HEADER_SIZE {
+            log::error!("received truncated packet of length {}", packet.len());
+            return;
+        }
+
         let mt = parse_message_type(packet[0]);
         match mt {
             MessageType::Data => match DataPacket::decode_full(&packet) {
-- 
2.43.0


From ded72772a4ecedbd2dadfaa51bd828565e7a350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 11/25] fix: ignore malformed data messages

A data packet with a valid header and a malformed body panicked the event loop,
whereas one with an invalid header is logged and ignored.
---
 src/device.rs | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index a88eb1a..707fe72 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -947,15 +947,12 @@ impl Device {
         }
     }
 
-    pub fn data_message_snd(&mut self, data: DataPacket) -> ControlPacket {
+    pub fn data_message_snd(&mut self, data: DataPacket) -> Option<ControlPacket> {
         log::debug!("[{}] data_message_send", self.handle);
-        match data
-            .specialize()
-            .expect("failed to parse Data packet child")
-        {
-            DataPacketChild::DataMessageSnd(data_msg_snd) => {
+        match data.specialize() {
+            Ok(DataPacketChild::DataMessageSnd(data_msg_snd)) => {
                 let session_token = data_msg_snd.session_handle;
-                if let Some(session) = self.session_mut(session_token) {
+                Some(if let Some(session) = self.session_mut(session_token) {
                     session.data_message_snd(data_msg_snd)
                 } else {
                     SessionDataTransferStatusNtf {
@@ -966,22 +963,25 @@ impl Device {
                     }
                     .try_into()
                     .unwrap()
-                }
+                })
             }
-            DataPacketChild::DataMessageRcv(data_msg_rcv) => {
+            Ok(DataPacketChild::DataMessageRcv(data_msg_rcv)) => {
                 // This function should not be passed anything besides DataMessageSnd
                 let session_token = data_msg_rcv.session_handle;
-                SessionDataTransferStatusNtf {
-                    session_token,
-                    status: DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat,
-                    tx_count: 1, // TODO: support for retries?
-                    uci_sequence_number: 0,
-                }
-                .try_into()
-                .unwrap()
+                Some(
+                    SessionDataTransferStatusNtf {
+                        session_token,
+                        status: DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat,
+                        tx_count: 1, // TODO: support for retries?
+                        uci_sequence_number: 0,
+                    }
+                    .try_into()
+                    .unwrap(),
+                )
             }
             _ => {
-                unimplemented!()
+                log::error!("failed to parse incoming Data packet child");
+                None
             }
         }
     }
@@ -1102,8 +1102,9 @@ impl Device {
         match mt {
             MessageType::Data => match DataPacket::decode_full(&packet) {
                 Ok(packet) => {
-                    let notification = self.data_message_snd(packet);
-                    self.send_control(notification)
+                    if let Some(notification) = self.data_message_snd(packet) {
+                        self.send_control(notification)
+                    }
                 }
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
-- 
2.43.0


From f61e7759bd1f8548d67f86c0e07d1e3bbc006a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 12/25] fix: refuse application data that does not fit in one
 data message

The next ranging round panicked the event loop when more than 65535 bytes had
been buffered.
---
 src/session.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 1ee2831..208d0f8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -149,6 +149,19 @@ impl Session {
 
         assert_eq!(self.id, session_token);
 
+        // The buffer is delivered in a single DATA_MESSAGE_RCV packet, which
+        // limits its size.
+        if self.data.len() + data.application_data.len() > u16::MAX as usize {
+            return SessionDataTransferStatusNtf {
+                session_token,
+                status: DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable,
+                tx_count: 1, // TODO: support for retries?
+                uci_sequence_number,
+            }
+            .try_into()
+            .unwrap();
+        }
+
         self.data.extend_from_slice(&data.application_data);
 
         SessionDataCreditNtf {
-- 
2.43.0


From 3bbc0038beb1488ac1aee67559e5e63832a36c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 13/25] fix: enforce the multicast list limit on lists that are
 already too long

SET_APP_CONFIG accepts longer lists, which could then grow without limit.
---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 707fe72..f41c9fd 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -694,7 +694,7 @@ impl Device {
                         });
                     } else {
                         if !dst_addresses.contains(&controlee.short_address) {
-                            if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES {
+                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                 status = uci::Status::ErrorMulticastListFull;
                                 update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                             } else {
-- 
2.43.0


From 84dcacc9e371cb32de6b1a6bd47d25dfb19fb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 14/25] fix: keep serving a device whose capture file cannot be
 created

The connection task panicked, leaving the device connected for ever with nobody
reading or writing its packets.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8590d2f..6cdb958 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,7 +373,9 @@ impl Pica {
             let pcapng_file = if let Some(dir) = pcapng_dir {
                 let full_path = dir.join(format!("device-{}.pcapng", handle));
                 log::debug!("Recording pcapng to file {}", full_path.as_path().display());
-                Some(pcapng::File::create(full_path).unwrap())
+                pcapng::File::create(full_path)
+                    .map_err(|err| log::error!("Failed to create pcapng file: {}", err))
+                    .ok()
             } else {
                 None
             };
-- 
2.43.0


From 13847f8a384cdb3d471c45a01cb6fc5fa321d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 15/25] fix: disconnect streams that produce truncated packets
 instead of panicking

The connection task of a stream passed to add_device panicked on a packet
shorter than the UCI header, and the device was never disconnected.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6cdb958..85b3fe4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -253,6 +253,9 @@ impl Pica {
                     .next()
                     .await
                     .ok_or(anyhow::anyhow!("input packet stream closed"))?;
+                if packet.len() < HEADER_SIZE {
+                    anyhow::bail!("truncated packet header")
+                }
                 let header =
                     packets::uci::CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE])?;
 
-- 
2.43.0


From cda257f10e2c4ca7263bfe27b16688470e090578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 16/25] fix: write complete pcapng blocks

Write::write may write less than requested, which silently corrupted the
capture.
---
 src/pcapng.rs | 48 +++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/pcapng.rs b/src/pcapng.rs
index 9c1da7e..678e508 100644
--- a/src/pcapng.rs
+++ b/src/pcapng.rs
@@ -12,8 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#![allow(clippy::unused_io_amount)]
-
 use std::io::Write;
 use std::path::Path;
 use std::time::Instant;
@@ -33,22 +31,22 @@ impl File {
         let mut file = std::fs::File::create(path)?;
 
         // PCAPng files must start with a Section Header Block.
-        file.write(&u32::to_le_bytes(0x0A0D0D0A))?; // Block Type
-        file.write(&u32::to_le_bytes(28))?; // Block Total Length
-        file.write(&u32::to_le_bytes(0x1A2B3C4D))?; // Byte-Order Magic
-        file.write(&u16::to_le_bytes(1))?; // Major Version
-        file.write(&u16::to_le_bytes(0))?; // Minor Version
-        file.write(&u64::to_le_bytes(0xFFFFFFFFFFFFFFFF))?; // Section Length (not specified)
-        file.write(&u32::to_le_bytes(28))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x0A0D0D0A))?; // Block Type
+        file.write_all(&u32::to_le_bytes(28))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x1A2B3C4D))?; // Byte-Order Magic
+        file.write_all(&u16::to_le_bytes(1))?; // Major Version
+        file.write_all(&u16::to_le_bytes(0))?; // Minor Version
+        file.write_all(&u64::to_le_bytes(0xFFFFFFFFFFFFFFFF))?; // Section Length (not specified)
+        file.write_all(&u32::to_le_bytes(28))?; // Block Total Length
 
         // Write the Interface Description Block used for all
         // UCI records.
-        file.write(&u32::to_le_bytes(0x00000001))?; // Block Type
-        file.write(&u32::to_le_bytes(20))?; // Block Total Length
-        file.write(&u16::to_le_bytes(293))?; // LinkType
-        file.write(&u16::to_le_bytes(0))?; // Reserved
-        file.write(&u32::to_le_bytes(0))?; // SnapLen (no limit)
-        file.write(&u32::to_le_bytes(20))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x00000001))?; // Block Type
+        file.write_all(&u32::to_le_bytes(20))?; // Block Total Length
+        file.write_all(&u16::to_le_bytes(293))?; // LinkType
+        file.write_all(&u16::to_le_bytes(0))?; // Reserved
+        file.write_all(&u32::to_le_bytes(0))?; // SnapLen (no limit)
+        file.write_all(&u32::to_le_bytes(20))?; // Block Total Length
 
         Ok(File {
             file: std::sync::Mutex::new(file),
@@ -63,16 +61,16 @@ impl File {
         let mut file = self.file.lock().unwrap();
 
         // Wrap the packet inside an Enhanced Packet Block.
-        file.write(&u32::to_le_bytes(0x00000006))?; // Block Type
-        file.write(&u32::to_le_bytes(block_total_length))?;
-        file.write(&u32::to_le_bytes(0))?; // Interface ID
-        file.write(&u32::to_le_bytes((timestamp >> 32) as u32))?; // Timestamp (High)
-        file.write(&u32::to_le_bytes(timestamp as u32))?; // Timestamp (Low)
-        file.write(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
-        file.write(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
-        file.write(packet)?;
-        file.write(&vec![0; packet_data_padding])?;
-        file.write(&u32::to_le_bytes(block_total_length))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x00000006))?; // Block Type
+        file.write_all(&u32::to_le_bytes(block_total_length))?;
+        file.write_all(&u32::to_le_bytes(0))?; // Interface ID
+        file.write_all(&u32::to_le_bytes((timestamp >> 32) as u32))?; // Timestamp (High)
+        file.write_all(&u32::to_le_bytes(timestamp as u32))?; // Timestamp (Low)
+        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
+        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
+        file.write_all(packet)?;
+        file.write_all(&vec![0; packet_data_padding])?;
+        file.write_all(&u32::to_le_bytes(block_total_length))?; // Block Total Length
         Ok(())
     }
 }
-- 
2.43.0


From ee6aadac758eb66d5520102306b1a6c0d0bc2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 17/25] fix: raise when the connection is closed while reading
 in the Python client

Host._read_exact looped for ever at the end of the stream.
---
 py/pica/pica/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/pica/pica/__init__.py b/py/pica/pica/__init__.py
index 423824f..a408048 100644
--- a/py/pica/pica/__init__.py
+++ b/py/pica/pica/__init__.py
@@ -34,6 +34,8 @@ class Host:
         received = bytes()
         while len(received) < expected_len:
             chunk = await self.reader.read(expected_len - len(received))
+            if not chunk:
+                raise ConnectionError("socket disconnected")
             received += chunk
         return received
 
-- 
2.43.0


From fa6428037197a49da45ced74eb1e70b3336140b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:08 +0000
Subject: [PATCH 18/25] fix: do not panic in the HTTP server when nobody is
 subscribed to events

broadcast::Sender::send fails when there are no receivers, which panicked the
request handlers (poisoning the scene lock) and the event handler (ending the
server).
---
 src/bin/http-server/main.rs | 105 +++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 57 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index e248040..1e6df7e 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -123,6 +123,12 @@ impl Context {
         }
     }
 
+    fn send_event(&self, event: Event) {
+        // An error here means that we have
+        // no receivers, so ignore it
+        let _ = self.events.send(event);
+    }
+
     async fn handle_connection_events(
         self,
         mut events: broadcast::Receiver<PicaEvent>,
@@ -142,13 +148,11 @@ impl Context {
                             position: Default::default(),
                         },
                     );
-                    self.events
-                        .send(Event::DeviceAdded {
-                            category: Category::Uci,
-                            mac_address,
-                            position: Default::default(),
-                        })
-                        .unwrap();
+                    self.send_event(Event::DeviceAdded {
+                        category: Category::Uci,
+                        mac_address,
+                        position: Default::default(),
+                    });
                 }
                 Ok(PicaEvent::Disconnected {
                     mac_address,
@@ -156,12 +160,10 @@ impl Context {
                 }) => {
                     let mut devices = self.devices.lock().unwrap();
                     devices.remove(&handle);
-                    self.events
-                        .send(Event::DeviceRemoved {
-                            category: Category::Uci,
-                            mac_address,
-                        })
-                        .unwrap();
+                    self.send_event(Event::DeviceRemoved {
+                        category: Category::Uci,
+                        mac_address,
+                    });
                 }
                 Err(err) => anyhow::bail!(err),
             }
@@ -204,13 +206,11 @@ impl Context {
                 .unwrap();
         };
 
-        self.events
-            .send(Event::DeviceUpdated {
-                category: device.category,
-                mac_address,
-                position,
-            })
-            .unwrap();
+        self.send_event(Event::DeviceUpdated {
+            category: device.category,
+            mac_address,
+            position,
+        });
 
         for other in devices.values() {
             if other.mac_address != device.mac_address {
@@ -223,30 +223,25 @@ impl Context {
 
                 assert!(local.0 == remote.0);
 
-                self.events
-                    .send(Event::NeighborUpdated {
-                        source_category: device.category,
-                        source_mac_address: device.mac_address,
-                        destination_category: other.category,
-                        destination_mac_address: other.mac_address,
-                        distance: local.0,
-                        azimuth: local.1,
-                        elevation: local.2,
-                    })
-                    .unwrap();
-
-                let _ = self
-                    .events
-                    .send(Event::NeighborUpdated {
-                        source_category: other.category,
-                        source_mac_address: other.mac_address,
-                        destination_category: device.category,
-                        destination_mac_address: device.mac_address,
-                        distance: remote.0,
-                        azimuth: remote.1,
-                        elevation: remote.2,
-                    })
-                    .unwrap();
+                self.send_event(Event::NeighborUpdated {
+                    source_category: device.category,
+                    source_mac_address: device.mac_address,
+                    destination_category: other.category,
+                    destination_mac_address: other.mac_address,
+                    distance: local.0,
+                    azimuth: local.1,
+                    elevation: local.2,
+                });
+
+                self.send_event(Event::NeighborUpdated {
+                    source_category: other.category,
+                    source_mac_address: other.mac_address,
+                    destination_category: device.category,
+                    destination_mac_address: device.mac_address,
+                    distance: remote.0,
+                    azimuth: remote.1,
+                    elevation: remote.2,
+                });
             }
         }
 
@@ -281,13 +276,11 @@ impl Context {
                         category: Category::Anchor,
                     },
                 );
-                self.events
-                    .send(Event::DeviceAdded {
-                        category: Category::Anchor,
-                        mac_address,
-                        position,
-                    })
-                    .unwrap();
+                self.send_event(Event::DeviceAdded {
+                    category: Category::Anchor,
+                    mac_address,
+                    position,
+                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
@@ -315,12 +308,10 @@ impl Context {
             Ok(Ok(handle)) => {
                 let mut devices = self.devices.lock().unwrap();
                 devices.remove(&handle);
-                self.events
-                    .send(Event::DeviceRemoved {
-                        category: Category::Anchor,
-                        mac_address,
-                    })
-                    .unwrap();
+                self.send_event(Event::DeviceRemoved {
+                    category: Category::Anchor,
+                    mac_address,
+                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
-- 
2.43.0


From 84afc8cf879006f936a779cc73d8e995e74d1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:08 +0000
Subject: [PATCH 19/25] fix: keep the HTTP server running after lagging behind
 on connection events

---
 src/bin/http-server/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 1e6df7e..f83dccf 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -165,6 +165,9 @@ impl Context {
                         mac_address,
                     });
                 }
+                Err(broadcast::error::RecvError::Lagged(count)) => {
+                    log::warn!("missed {} connection events", count)
+                }
                 Err(err) => anyhow::bail!(err),
             }
         }
-- 
2.43.0


From ddb08bb7ffcd5a7ae49c0cb29217de76d802af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:08 +0000
Subject: [PATCH 20/25] fix: answer HTTP requests with an error status instead
 of panicking

A request whose body could not be read, or received while the event loop is
gone, panicked the handler.
---
 src/bin/http-server/main.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index f83dccf..b9a74d9 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -263,10 +263,11 @@ impl Context {
         log::info!("create-anchor({}, {})", mac_address, position);
 
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
-        cmd_tx
+        // An error here drops the response sender, and is
+        // reported as an internal server error below.
+        let _ = cmd_tx
             .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
-            .await
-            .unwrap();
+            .await;
 
         let status = match rsp_rx.await {
             Ok(Ok(handle)) => {
@@ -302,10 +303,11 @@ impl Context {
         log::info!("destroy-anchor({})", mac_address);
 
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
-        cmd_tx
+        // An error here drops the response sender, and is
+        // reported as an internal server error below.
+        let _ = cmd_tx
             .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
-            .await
-            .unwrap();
+            .await;
 
         let status = match rsp_rx.await {
             Ok(Ok(handle)) => {
@@ -433,7 +435,17 @@ async fn http_request(
             .unwrap());
     }
 
-    let body = body::to_bytes(req.body_mut()).await.unwrap();
+    let body = match body::to_bytes(req.body_mut()).await {
+        Ok(body) => body,
+        Err(err) => {
+            let reason = format!("Error while reading request body: {}", err);
+            log::error!("{}", reason);
+            return Ok(Response::builder()
+                .status(HttpStatusCode::BAD_REQUEST)
+                .body(reason.into())
+                .unwrap());
+        }
+    };
     let response = match req
         .uri_mut()
         .path()
-- 
2.43.0


From dcb47fa5b4df559735f939ceeec28a1ccc926c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 21/25] fix: bring the multicast list response of the Python
 bindings in line with the packet description

---
 py/pica/pica/packets/uci.py | 67 +++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/py/pica/pica/packets/uci.py b/py/pica/pica/packets/uci.py
index 99b11b1..c2cd247 100644
--- a/py/pica/pica/packets/uci.py
+++ b/py/pica/pica/packets/uci.py
@@ -3378,63 +3378,78 @@ class SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(Packet):
         return sum([elt.size for elt in self.controlees]) + 1
 
 @dataclass
-class SessionUpdateControllerMulticastListRsp(SessionConfigPacket):
-    status: Status = field(kw_only=True, default=Status.OK)
+class ControleeStatus(Packet):
+    mac_address: bytearray = field(kw_only=True, default_factory=bytearray)
+    status: MulticastUpdateStatus = field(kw_only=True, default=MulticastUpdateStatus.OK_MULTICAST_LIST_UPDATE)
 
     def __post_init__(self):
-        self.mt = MessageType.RESPONSE
-        self.oid = SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST
-        self.gid = GroupId.SESSION_CONFIG
+        pass
 
     @staticmethod
-    def parse(fields: dict, span: bytes) -> Tuple['SessionUpdateControllerMulticastListRsp', bytes]:
-        if fields['mt'] != MessageType.RESPONSE or fields['oid'] != SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST or fields['gid'] != GroupId.SESSION_CONFIG:
-            raise Exception("Invalid constraint field values")
+    def parse(span: bytes) -> Tuple['ControleeStatus', bytes]:
+        fields = {'payload': None}
+        if len(span) < 2:
+            raise Exception('Invalid packet size')
+        fields['mac_address'] = list(span[:2])
+        span = span[2:]
         if len(span) < 1:
             raise Exception('Invalid packet size')
-        fields['status'] = Status.from_int(span[0])
+        fields['status'] = MulticastUpdateStatus.from_int(span[0])
         span = span[1:]
-        return SessionUpdateControllerMulticastListRsp(**fields), span
+        return ControleeStatus(**fields), span
 
     def serialize(self, payload: bytes = None) -> bytes:
         _span = bytearray()
+        _span.extend(self.mac_address)
         _span.append((self.status << 0))
-        return SessionConfigPacket.serialize(self, payload = bytes(_span))
+        return bytes(_span)
 
     @property
     def size(self) -> int:
-        return 1
+        return 3
 
 @dataclass
-class ControleeStatus(Packet):
-    mac_address: bytearray = field(kw_only=True, default_factory=bytearray)
-    status: MulticastUpdateStatus = field(kw_only=True, default=MulticastUpdateStatus.OK_MULTICAST_LIST_UPDATE)
+class SessionUpdateControllerMulticastListRsp(SessionConfigPacket):
+    status: Status = field(kw_only=True, default=Status.OK)
+    controlee_status: List[ControleeStatus] = field(kw_only=True, default_factory=list)
 
     def __post_init__(self):
-        pass
+        self.mt = MessageType.RESPONSE
+        self.oid = SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST
+        self.gid = GroupId.SESSION_CONFIG
 
     @staticmethod
-    def parse(span: bytes) -> Tuple['ControleeStatus', bytes]:
-        fields = {'payload': None}
+    def parse(fields: dict, span: bytes) -> Tuple['SessionUpdateControllerMulticastListRsp', bytes]:
+        if fields['mt'] != MessageType.RESPONSE or fields['oid'] != SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST or fields['gid'] != GroupId.SESSION_CONFIG:
+            raise Exception("Invalid constraint field values")
         if len(span) < 2:
             raise Exception('Invalid packet size')
-        fields['mac_address'] = list(span[:2])
+        fields['status'] = Status.from_int(span[0])
+        controlee_status_count = span[1]
         span = span[2:]
-        if len(span) < 1:
+        if len(span) < controlee_status_count * 3:
             raise Exception('Invalid packet size')
-        fields['status'] = MulticastUpdateStatus.from_int(span[0])
-        span = span[1:]
-        return ControleeStatus(**fields), span
+        controlee_status = []
+        for n in range(controlee_status_count):
+            controlee_status.append(ControleeStatus.parse_all(span[n * 3:(n + 1) * 3]))
+        fields['controlee_status'] = controlee_status
+        span = span[controlee_status_count * 3:]
+        return SessionUpdateControllerMulticastListRsp(**fields), span
 
     def serialize(self, payload: bytes = None) -> bytes:
         _span = bytearray()
-        _span.extend(self.mac_address)
         _span.append((self.status << 0))
-        return bytes(_span)
+        if len(self.controlee_status) > 255:
+            print(f"Invalid length for field SessionUpdateControllerMulticastListRsp::controlee_status:  {len(self.controlee_status)} > 255; the array will be truncated")
+            del self.controlee_status[255:]
+        _span.append((len(self.controlee_status) << 0))
+        for _elt in self.controlee_status:
+            _span.extend(_elt.serialize())
+        return SessionConfigPacket.serialize(self, payload = bytes(_span))
 
     @property
     def size(self) -> int:
-        return 3
+        return sum([elt.size for elt in self.controlee_status]) + 2
 
 @dataclass
 class SessionUpdateControllerMulticastListNtf(SessionConfigPacket):
-- 
2.43.0


From f6685f6e806f2ab8f47847a30b427c98db3e9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:19 +0000
Subject: [PATCH 22/25] fix: use the packet names of the Python bindings in the
 console

---
 py/pica/console.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/py/pica/console.py b/py/pica/console.py
index 425db53..ad1ec4b 100755
--- a/py/pica/console.py
+++ b/py/pica/console.py
@@ -146,25 +146,25 @@ class Device:
     def device_reset(self, **kargs):
         """Reset the UWBS."""
         self.host.send_control(
-            uci.DeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
+            uci.CoreDeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
         )
 
     def get_device_info(self, **kargs):
         """Retrieve the device information like (UCI version and other vendor specific info)."""
-        self.host.send_control(uci.GetDeviceInfoCmd())
+        self.host.send_control(uci.CoreGetDeviceInfoCmd())
 
     def get_caps_info(self, **kargs):
         """Get the capability of the UWBS."""
-        self.host.send_control(uci.GetCapsInfoCmd())
+        self.host.send_control(uci.CoreGetCapsInfoCmd())
 
     def set_config(self, low_power_mode: str = "0", **kargs):
         """Set the configuration parameters on the UWBS."""
         self.host.send_control(
-            uci.SetConfigCmd(
-                tlvs=[
-                    uci.DeviceConfigTlv(
-                        cfg_id=uci.DeviceConfigId.LOW_POWER_MODE,
-                        v=bytes([int(low_power_mode)]),
+            uci.CoreSetConfigCmd(
+                parameters=[
+                    uci.ConfigParameter(
+                        id=uci.ConfigParameterId.LOW_POWER_MODE,
+                        value=bytes([int(low_power_mode)]),
                     ),
                 ]
             )
@@ -173,10 +173,10 @@ class Device:
     def get_config(self, **kargs):
         """Retrieve the current configuration parameter(s) of the UWBS."""
         self.host.send_control(
-            uci.GetConfigCmd(
-                cfg_id=[
-                    uci.DeviceConfigId.LOW_POWER_MODE,
-                    uci.DeviceConfigId.DEVICE_STATE,
+            uci.CoreGetConfigCmd(
+                parameter_ids=[
+                    uci.ConfigParameterId.LOW_POWER_MODE,
+                    uci.ConfigParameterId.DEVICE_STATE,
                 ]
             )
         )
@@ -230,7 +230,7 @@ class Device:
                         v=int(ranging_interval).to_bytes(4, byteorder="little"),
                     ),
                     uci.AppConfigTlv(
-                        cfg_id=uci.AppConfigTlvType.NO_OF_CONTROLEE,
+                        cfg_id=uci.AppConfigTlvType.NUMBER_OF_CONTROLEES,
                         v=bytes([len(dst_mac_addresses)]),
                     ),
                     uci.AppConfigTlv(
-- 
2.43.0


From 09a44262dbee3bc59eb9748fd13d3d15fe2d7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:27 +0000
Subject: [PATCH 23/25] fix: report the current device state in
 CORE_GET_CONFIG_RSP

---
 src/device.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f41c9fd..327f848 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -79,7 +79,6 @@ pub const DEFAULT_CAPS_INFO: &[(CapTlvType, &[u8])] = &[
 
 /// [UCI] 8.2 Device Configuration Parameters
 pub struct DeviceConfig {
-    device_state: DeviceState,
     // This config is used to enable/disable the low power mode.
     //   0x00 = Disable low power mode
     //   0x01 = Enable low power mode (default)
@@ -92,7 +91,6 @@ pub struct DeviceConfig {
 impl Default for DeviceConfig {
     fn default() -> Self {
         DeviceConfig {
-            device_state: DeviceState::DeviceStateError,
             low_power_mode: true,
         }
     }
@@ -327,7 +325,7 @@ impl Device {
             match id {
                 ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                     id,
-                    value: vec![self.config.device_state.into()],
+                    value: vec![self.state.into()],
                 }),
                 ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                     id,
-- 
2.43.0


From e54342deab314899f6512a515533bfa074e9b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 24/25] fix: deliver in-band data to peers that cannot be
 measured

---
 src/lib.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 85b3fe4..fab3b57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -460,19 +460,15 @@ impl Pica {
                     .app_config
                     .device_mac_address
                     .unwrap();
-                let Some(local) = self
-                    .ranging_estimator
-                    .estimate(&device.handle, &peer_device.handle)
-                else {
-                    continue;
-                };
-                let Some(remote) = self
-                    .ranging_estimator
-                    .estimate(&peer_device.handle, &device.handle)
-                else {
-                    continue;
-                };
-                measurements.extend(make_measurement(&peer_mac_address, local, remote));
+                // A missing measurement does not prevent the data transfer.
+                if let (Some(local), Some(remote)) = (
+                    self.ranging_estimator
+                        .estimate(&device.handle, &peer_device.handle),
+                    self.ranging_estimator
+                        .estimate(&peer_device.handle, &device.handle),
+                ) {
+                    measurements.extend(make_measurement(&peer_mac_address, local, remote));
+                }
             }
 
             if device.can_start_data_transfer(session_id)
-- 
2.43.0


From b9eb277b8bff8b64f9913cdd9b969e9beba1c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 25/25] fix: forward data packets received between the segments
 of a control packet

---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fab3b57..1560c46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -263,6 +263,16 @@ impl Pica {
                     file.write(&packet, pcapng::Direction::Tx)?;
                 }
 
+                // Data packets are not reassembled, and may be received
+                // in between the segments of a control packet.
+                if header.mt == packets::uci::MessageType::Data {
+                    cmd_tx
+                        .send(PicaCommand::UciPacket(handle, packet))
+                        .await
+                        .unwrap();
+                    continue;
+                }
+
                 match &mut complete_packet {
                     Some(complete_packet) => {
                         complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
@@ -270,9 +280,7 @@ impl Pica {
                     None => complete_packet = Some(packet),
                 }
 
-                if header.pbf == packets::uci::PacketBoundaryFlag::Complete
-                    || header.mt == packets::uci::MessageType::Data
-                {
+                if header.pbf == packets::uci::PacketBoundaryFlag::Complete {
                     break;
                 }
             }
-- 
2.43.0

