"""Refactorings that rewrite whole functions.  fn(FILE, HEAD) is the text of the function that starts with HEAD."""
D,S,L,A='src/device.rs','src/session.rs','src/lib.rs','src/app_config.rs'
P,G,M,H='src/packets.rs','src/pcapng.rs','src/mac_address.rs','src/bin/http-server/main.rs'
Q='src/bin/http-server/position.rs'
def fn(f, head):
    s=open('/repo/'+f).read()
    i=s.find(head); assert i>=0 and s.count(head)==1,(f,head,s.count(head))
    i=s.rfind('\n',0,i)+1
    j=s.index('{\n',i); n=0
    while True:
        c=s[j]
        if c=='{': n+=1
        elif c=='}':
            n-=1
            if n==0: break
        j+=1
    return s[i:j+1]
R={}
R['h-deinit-remove']=[(D,fn(D,'fn session_deinit('),"""    fn session_deinit(&mut self, cmd: SessionDeinitCmd) -> SessionDeinitRsp {
        let session_id = cmd.session_token;
        log::debug!("[{}] Session deinit", self.handle);
        log::debug!("  session_id=0x{:x}", session_id);

        let Some(removed) = self.sessions.remove(&session_id) else {
            return SessionDeinitRsp {
                status: uci::Status::ErrorSessionNotExist,
            };
        };
        if removed.session_state() == SessionState::SessionStateActive {
            self.n_active_sessions -= 1;
            if self.n_active_sessions < 1 {
                self.init();
            }
        }
        drop(removed);
        SessionDeinitRsp {
            status: uci::Status::Ok,
        }
    }""")]
R['h-deinit-entry']=[(D,fn(D,'fn session_deinit('),"""    fn session_deinit(&mut self, cmd: SessionDeinitCmd) -> SessionDeinitRsp {
        use std::collections::hash_map::Entry;
        let session_id = cmd.session_token;
        log::debug!("[{}] Session deinit", self.handle);

        let was_active = match self.sessions.entry(session_id) {
            Entry::Occupied(entry) => {
                let session = entry.remove();
                session.state == SessionState::SessionStateActive
            }
            Entry::Vacant(_) => {
                return SessionDeinitRsp {
                    status: uci::Status::ErrorSessionNotExist,
                }
            }
        };
        self.n_active_sessions -= usize::from(was_active);
        if was_active && self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }
        SessionDeinitRsp {
            status: uci::Status::Ok,
        }
    }""")]
R['h-setconfig-filter']=[(D,fn(D,'pub fn core_set_config('),"""    fn set_parameter(&mut self, parameter: &uci::ConfigParameter) -> Result<(), uci::Status> {
        use uci::ConfigParameterId::*;
        match parameter.id {
            DeviceState => Err(uci::Status::ReadOnly),
            LowPowerMode => {
                self.config.low_power_mode = !matches!(parameter.value.first(), Some(0));
                Ok(())
            }
            Rfu(id) => {
                log::warn!("unknown config parameter id 0x{:02x}", *id);
                Err(uci::Status::InvalidParam)
            }
        }
    }

    pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
        log::debug!("[{}] SetConfig", self.handle);
        // UCI 6.3
        if self.state != DeviceState::DeviceStateReady {
            return CoreSetConfigRsp {
                status: uci::Status::Rejected,
                parameters: vec![],
            };
        }

        let parameters: Vec<_> = cmd
            .parameters
            .iter()
            .filter_map(|parameter| {
                self.set_parameter(parameter)
                    .err()
                    .map(|status| uci::ConfigParameterStatus {
                        id: parameter.id,
                        status,
                    })
            })
            .collect();

        let status = match parameters.len() {
            0 => uci::Status::Ok,
            _ => uci::Status::InvalidParam,
        };
        CoreSetConfigRsp { status, parameters }
    }""")]
R['h-getconfig-partition']=[(D,fn(D,'pub fn core_get_config('),"""    fn config_value(&self, id: ConfigParameterId) -> Option<u8> {
        match id {
            ConfigParameterId::DeviceState => Some(self.state.into()),
            ConfigParameterId::LowPowerMode => Some(u8::from(self.config.low_power_mode)),
            ConfigParameterId::Rfu(_) => None,
        }
    }

    pub fn core_get_config(&self, cmd: CoreGetConfigCmd) -> CoreGetConfigRsp {
        log::debug!("[{}] GetConfig", self.handle);

        let (valid, invalid): (Vec<_>, Vec<_>) = cmd
            .parameter_ids
            .into_iter()
            .map(|id| ConfigParameter {
                id,
                value: self.config_value(id).into_iter().collect(),
            })
            .partition(|parameter| !parameter.value.is_empty());

        let (status, parameters) = if invalid.is_empty() {
            (uci::Status::Ok, valid)
        } else {
            (uci::Status::InvalidParam, invalid)
        };
        CoreGetConfigRsp { status, parameters }
    }""")]
R['h-getconfig-once']=[(D,fn(D,'pub fn core_get_config('),"""    pub fn core_get_config(&self, cmd: CoreGetConfigCmd) -> CoreGetConfigRsp {
        log::debug!("[{}] GetConfig", self.handle);

        let mut status = uci::Status::Ok;
        let mut parameters: Vec<ConfigParameter> = Vec::with_capacity(cmd.parameter_ids.len());
        for &id in &cmd.parameter_ids {
            let value = match id {
                ConfigParameterId::DeviceState => vec![u8::from(self.state)],
                ConfigParameterId::LowPowerMode => vec![u8::from(self.config.low_power_mode)],
                ConfigParameterId::Rfu(_) => {
                    // Only the invalid parameters are reported.
                    if status == uci::Status::Ok {
                        parameters.clear();
                    }
                    status = uci::Status::InvalidParam;
                    parameters.push(ConfigParameter { id, value: vec![] });
                    continue;
                }
            };
            if status == uci::Status::Ok {
                parameters.push(ConfigParameter { id, value });
            }
        }
        CoreGetConfigRsp { status, parameters }
    }""")]
R['h-can-transfer']=[(D,fn(D,'pub fn can_start_ranging('),"""    fn active_session(&self, session_id: u32) -> Option<&Session> {
        self.sessions
            .get(&session_id)
            .filter(|session| session.state == SessionState::SessionStateActive)
    }

    fn data_session(&self, session_id: u32) -> Option<&Session> {
        let session = self.active_session(session_id)?;
        (session.session_type == SessionType::FiraRangingAndInBandDataSession).then_some(session)
    }

    pub fn can_start_ranging(&self, peer_session: &Session, session_id: u32) -> bool {
        let Some(session) = self.active_session(session_id) else {
            return false;
        };
        session
            .app_config
            .is_compatible_for_ranging(&peer_session.app_config)
    }"""),(D,fn(D,'pub fn can_start_data_transfer('),"""    pub fn can_start_data_transfer(&self, session_id: u32) -> bool {
        self.data_session(session_id)
            .is_some_and(|session| session.app_config.can_start_data_transfer())
    }"""),(D,fn(D,'pub fn can_receive_data_transfer('),"""    pub fn can_receive_data_transfer(&self, session_id: u32) -> bool {
        self.data_session(session_id)
            .map(|session| &session.app_config)
            .map_or(false, AppConfig::can_receive_data_transfer)
    }"""),(D,'use crate::MacAddress;','use crate::{AppConfig, MacAddress};')]
R['h-stop-ok-or']=[(D,fn(D,'fn session_stop('),"""    fn session_stop(&mut self, cmd: SessionStopCmd) -> SessionStopRsp {
        log::debug!("[{}:0x{:x}] Session Stop", self.handle, cmd.session_id);

        let status = match self.try_session_stop(cmd.session_id) {
            Ok(()) => uci::Status::Ok,
            Err(status) => status,
        };
        SessionStopRsp { status }
    }

    fn try_session_stop(&mut self, session_id: u32) -> Result<(), uci::Status> {
        let session = self
            .sessions
            .get_mut(&session_id)
            .ok_or(uci::Status::ErrorSessionNotExist)?;

        if session.state != SessionState::SessionStateActive {
            return Err(uci::Status::ErrorSessionActive);
        }

        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
        session.stop_ranging_task();

        match self.n_active_sessions - 1 {
            0 => {
                self.n_active_sessions = 0;
                self.set_state(DeviceState::DeviceStateReady);
            }
            n => self.n_active_sessions = n,
        }
        Ok(())
    }""")]
R['h-start-fn']=[(D,fn(D,'fn session_start('),"""    fn session_start(&mut self, cmd: SessionStartCmd) -> SessionStartRsp {
        let session_id = cmd.session_id;
        log::debug!("[{}:0x{:x}] Session Start", self.handle, session_id);

        let status = match self.sessions.get_mut(&session_id) {
            None => uci::Status::ErrorSessionNotExist,
            Some(session) if session.state == SessionState::SessionStateIdle => {
                session.start_ranging_task(self.handle, self.pica_tx.clone());
                self.n_active_sessions += 1;
                self.set_state(DeviceState::DeviceStateActive);
                uci::Status::Ok
            }
            Some(_) => uci::Status::ErrorSessionNotConfigured,
        };
        SessionStartRsp { status }
    }"""),(S,"""    pub fn stop_ranging_task(""","""    pub fn start_ranging_task(&mut self, handle: usize, tx: mpsc::Sender<crate::PicaCommand>) {
        assert!(self.ranging_task.is_none());
        let session_id = self.id;
        let period = Duration::from_millis(u64::from(self.app_config.ranging_duration));
        let task = async move {
            loop {
                time::sleep(period).await;
                let round = crate::PicaCommand::Ranging(handle, session_id);
                if tx.send(round).await.is_err() {
                    panic!("pica was stopped");
                }
            }
        };
        self.ranging_task.replace(tokio::spawn(task));
        self.set_state(
            SessionState::SessionStateActive,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
    }

    pub fn stop_ranging_task(""")]
R['h-rcv-packet']=[(D,fn(D,'pub fn receive_packet('),"""    pub fn receive_packet(&mut self, packet: Vec<u8>) {
        let (Some(&first), Some(&second), true) =
            (packet.first(), packet.get(1), packet.len() >= HEADER_SIZE)
        else {
            log::error!("received truncated packet of length {}", packet.len());
            return;
        };

        let mt = parse_message_type(first);
        if mt == MessageType::Data {
            let notification = match DataPacket::decode_full(&packet) {
                Ok(packet) => self.data_message_snd(packet),
                Err(err) => {
                    log::error!("failed to parse incoming Data packet: {}", err);
                    None
                }
            };
            if let Some(notification) = notification {
                self.send_control(notification);
            }
        } else if mt == MessageType::Command {
            let Ok(cmd) = ControlPacket::decode_full(&packet) else {
                self.send_raw_control(Self::undecoded_response(first, second));
                return;
            };
            let response = self.receive_command(cmd);
            self.send_control(response);
        } else {
            log::warn!("received unexpected packet of MT {:?}", mt);
        }
    }

    fn undecoded_response(first: u8, second: u8) -> Vec<u8> {
        let group_id = first % 16;
        let status = match GroupId::try_from(group_id) {
            Ok(_) => uci::Status::UnknownOid,
            Err(_) => uci::Status::UnknownGid,
        };
        let mut response = Vec::with_capacity(HEADER_SIZE + 1);
        response.push(u8::from(MessageType::Response) << 5 | group_id);
        response.push(second & 0b0011_1111);
        response.extend([0, 1]);
        response.push(status.into());
        response
    }""")]
R['h-data-msg']=[(D,fn(D,'pub fn data_message_snd('),"""    pub fn data_message_snd(&mut self, data: DataPacket) -> Option<ControlPacket> {
        log::debug!("[{}] data_message_send", self.handle);

        fn failure(session_token: u32, status: DataTransferNtfStatusCode) -> ControlPacket {
            let ntf = SessionDataTransferStatusNtf {
                session_token,
                status,
                tx_count: 1,
                uci_sequence_number: 0,
            };
            ntf.try_into().unwrap()
        }

        let child = data
            .specialize()
            .map_err(|_| log::error!("failed to parse incoming Data packet child"))
            .ok()?;
        match child {
            DataPacketChild::DataMessageSnd(msg) => {
                let token = msg.session_handle;
                let Some(session) = self.sessions.get_mut(&token) else {
                    return Some(failure(
                        token,
                        DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected,
                    ));
                };
                Some(session.data_message_snd(msg))
            }
            DataPacketChild::DataMessageRcv(DataMessageRcv { session_handle, .. }) => Some(failure(
                session_handle,
                DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat,
            )),
            DataPacketChild::None => None,
        }
    }""")]
R['h-data-session']=[(S,fn(S,'pub fn data_message_snd('),"""    fn transfer_status(&self, seq: u8, status: DataTransferNtfStatusCode) -> ControlPacket {
        SessionDataTransferStatusNtf {
            session_token: self.id,
            status,
            tx_count: 1,
            uci_sequence_number: seq,
        }
        .try_into()
        .unwrap()
    }

    pub fn data_message_snd(&mut self, data: DataMessageSnd) -> ControlPacket {
        use DataTransferNtfStatusCode::*;
        log::debug!("[{}] data_message_snd", self.device_handle);
        let DataMessageSnd {
            session_handle,
            data_sequence_number,
            application_data,
            ..
        } = data;
        assert!(self.id == session_handle);
        let seq = data_sequence_number as u8;

        let total = self.data.len() + application_data.len();
        match self.session_type {
            SessionType::FiraRangingAndInBandDataSession if total <= usize::from(u16::MAX) => {
                for byte in application_data {
                    self.data.extend([byte]);
                }
                SessionDataCreditNtf {
                    credit_availability: CreditAvailability::CreditAvailable,
                    session_token: session_handle,
                }
                .try_into()
                .unwrap()
            }
            SessionType::FiraRangingAndInBandDataSession => {
                self.transfer_status(seq, UciDataTransferStatusErrorNoCreditAvailable)
            }
            _ => self.transfer_status(seq, UciDataTransferStatusSessionTypeNotSupported),
        }
    }""")]
R['h-data-put']=[(S,"        self.data.extend_from_slice(&data.application_data);","        use bytes::BufMut;\n        self.data.put_slice(&data.application_data);"),
 (S,"if self.data.len() + data.application_data.len() > u16::MAX as usize {","let free = (u16::MAX as usize).saturating_sub(self.data.len());\n        if data.application_data.len() > free {")]
R['h-data-clear']=[(S,"        self.data.clear()","        let _ = self.data.split();"),(S,"pub fn data(&self) -> &BytesMut {\n        &self.data","pub fn data(&self) -> &[u8] {\n        &self.data[..]"),
 (L,"application_data: session.data().clone().into(),","application_data: session.data().to_vec(),")]
R['h-setstate-replace']=[(S,fn(S,'pub fn set_state('),"""    pub fn set_state(&mut self, session_state: SessionState, reason_code: ReasonCode) {
        let previous = std::mem::replace(&mut self.state, session_state);
        if previous != session_state {
            tokio::spawn(Self::notify_status(
                self.tx.clone(),
                SessionStatusNtf {
                    session_token: self.id,
                    session_state,
                    reason_code: u8::from(reason_code),
                },
            ));
        }
    }

    async fn notify_status(tx: mpsc::UnboundedSender<UciPacket>, ntf: SessionStatusNtf) {
        time::sleep(Duration::from_millis(1)).await;
        let packet = ntf.encode_to_vec().unwrap();
        if tx.send(packet).is_err() {
            log::debug!("host is disconnected");
        }
    }""")]
R['h-stop-take']=[(S,fn(S,'pub fn stop_ranging_task('),"""    pub fn stop_ranging_task(&mut self) {
        let task = std::mem::take(&mut self.ranging_task);
        if let Some(task) = task {
            task.abort()
        }
    }""")]
R['h-stop-iter']=[(S,fn(S,'pub fn stop_ranging_task('),"""    pub fn stop_ranging_task(&mut self) {
        self.ranging_task.take().iter().for_each(JoinHandle::abort);
    }""")]
R['h-reset-clear']=[(D,"""        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        self.is_reset = true;
        self.init();
""","""        let fresh = Device {
            is_reset: true,
            ..Device::new(
                self.handle,
                self.mac_address,
                self.tx.clone(),
                self.pica_tx.clone(),
            )
        };
        drop(std::mem::replace(self, fresh));
        self.init();
""")]
R['h-init-match']=[(D,fn(D,'fn session_init('),"""    fn session_init(&mut self, cmd: SessionInitCmd) -> SessionInitRsp {
        let SessionInitCmd {
            session_id,
            session_type,
        } = cmd;

        log::debug!("[{}] Session init", self.handle);
        log::debug!("  session_id=0x{:x}", session_id);
        log::debug!("  session_type={:?}", session_type);

        let full = self.sessions.len() >= MAX_SESSION;
        let status = match (self.sessions.get(&session_id), full) {
            (Some(_), _) => uci::Status::ErrorSessionDuplicate,
            (None, true) => uci::Status::ErrorMaxSessionsExceeded,
            (None, false) => {
                let mut session =
                    Session::new(session_id, session_type, self.handle, self.tx.clone());
                session.init();
                self.sessions.insert(session_id, session);
                uci::Status::Ok
            }
        };

        SessionInitRsp { status }
    }""")]
R['h-ranging-fns']=[(L,"""        let mut data_transfer = Vec::new();
        let mut measurements = Vec::new();

        // Look for compatible anchors.
        for mac_address in session.get_dst_mac_address() {
            if let Some(other) = self.anchors.get(mac_address) {
                let Some(local) = self
                    .ranging_estimator
                    .estimate(&device.handle, &other.handle)
                else {
                    continue;
                };
                let Some(remote) = self
                    .ranging_estimator
                    .estimate(&other.handle, &device.handle)
                else {
                    continue;
                };
                measurements.extend(make_measurement(mac_address, local, remote));
            }
        }
""","""        let mut data_transfer = Vec::new();
        let mut measurements = self.measure_anchors(device.handle, session.get_dst_mac_address());
"""),(L,"""                // A missing measurement does not prevent the data transfer.
                if let (Some(local), Some(remote)) = (
                    self.ranging_estimator
                        .estimate(&device.handle, &peer_device.handle),
                    self.ranging_estimator
                        .estimate(&peer_device.handle, &device.handle),
                ) {
                    measurements.extend(make_measurement(&peer_mac_address, local, remote));
                }
""","""                // A missing measurement does not prevent the data transfer.
                measurements.extend(self.measure(
                    device.handle,
                    peer_device.handle,
                    &peer_mac_address,
                ));
"""),(L,"""    fn uci_packet(""","""    fn measure(
        &self,
        left: Handle,
        right: Handle,
        address: &MacAddress,
    ) -> Option<ShortAddressTwoWayRangingMeasurement> {
        let local = self.ranging_estimator.estimate(&left, &right)?;
        let remote = self.ranging_estimator.estimate(&right, &left)?;
        make_measurement(address, local, remote)
    }

    fn measure_anchors(
        &self,
        handle: Handle,
        addresses: &[MacAddress],
    ) -> Vec<ShortAddressTwoWayRangingMeasurement> {
        addresses
            .iter()
            .filter_map(|address| self.anchors.get(address).map(|anchor| (address, anchor)))
            .filter_map(|(address, anchor)| self.measure(handle, anchor.handle, address))
            .collect()
    }

    fn uci_packet(""")]
R['h-ranging-guard']=[(L,"""            if peer_device.can_start_ranging(session, session_id) {
                let peer_mac_address = peer_device
                    .session(session_id)
                    .unwrap()
                    .app_config
                    .device_mac_address
                    .unwrap();
""","""            if let Some(peer_mac_address) = peer_device
                .session(session_id)
                .filter(|_| peer_device.can_start_ranging(session, session_id))
                .and_then(|peer| peer.app_config.device_mac_address)
            {
"""),(L,"""            if device.can_start_data_transfer(session_id)
                && peer_device.can_receive_data_transfer(session_id)
            {
                data_transfer.push(peer_device);
            }
""","""            if !sending || !peer_device.can_receive_data_transfer(session_id) {
                continue;
            }
            data_transfer.push(peer_device);
"""),(L,"        let mut data_transfer = Vec::new();","        let sending = device.can_start_data_transfer(session_id);\n        let mut data_transfer = Vec::new();")]
R['h-ranging-tx']=[(L,"""        for peer_device in data_transfer.iter() {
            // An error here means that the peer is disconnecting, ignore it.
            let _ = peer_device.tx.send(
                DataMessageRcv {
                    application_data: session.data().clone().into(),
                    data_sequence_number: 0x01,
                    pbf: PacketBoundaryFlag::Complete,
                    session_handle: session_id,
                    source_address: session.app_config.device_mac_address.unwrap().into(),
                    status: uci::Status::Ok,
                }
                .encode_to_vec()
                .unwrap(),
            );
        }
""","""        if !data_transfer.is_empty() {
            let message = DataMessageRcv {
                application_data: session.data().to_vec(),
                data_sequence_number: 0x01,
                pbf: PacketBoundaryFlag::Complete,
                session_handle: session_id,
                source_address: u64::from(session.app_config.device_mac_address.unwrap()),
                status: uci::Status::Ok,
            }
            .encode_to_vec()
            .unwrap();
            for peer_tx in data_transfer {
                // An error here means that the peer is disconnecting, ignore it.
                let _ = peer_tx.send(message.clone());
            }
        }
"""),(L,"data_transfer.push(peer_device);","data_transfer.push(&peer_device.tx);")]
R['h-ranging-finish']=[(L,"""
            let device = self.get_device_mut(device_handle).unwrap();
            let session = device.session_mut(session_id).unwrap();

            session.sequence_number += 1;
        }

        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();
""","""        }

        let notified = session.is_session_info_ntf_enabled();
        // TODO: Clean the data only when all the data is transfered
        if let Some(session) = self
            .devices
            .get_mut(&device_handle)
            .and_then(|device| device.session_mut(session_id))
        {
            if notified {
                session.sequence_number += 1;
            }
            session.clear_data();
        }
""")]
R['h-instop-collect']=[(L,fn(L,'fn stop_controlee_ranging('),"""    fn stop_controlee_ranging(&mut self, mac_address: &MacAddress, session_id: u32) {
        self.devices.values_mut().for_each(|device| {
            let addressed = device
                .session(session_id)
                .is_some_and(|session| session.app_config.device_mac_address == Some(*mac_address));
            if addressed {
                device.stop_in_band(session_id);
            }
        })
    }"""),(D,"    // Send a response or notification to the Host.\n    fn send_raw_control","""    pub fn stop_in_band(&mut self, session_id: u32) {
        let Some(session) = self.sessions.get_mut(&session_id) else {
            return;
        };
        if session.state != SessionState::SessionStateActive {
            log::warn!("stop_controlee_ranging: session is not active !");
            return;
        }
        session.stop_ranging_task();
        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::SessionStoppedDueToInbandSignal,
        );
        if self.n_active_sessions > 0 {
            self.n_active_sessions -= 1;
        }
        if self.n_active_sessions == 0 {
            self.init();
        }
    }

    // Send a response or notification to the Host.
    fn send_raw_control""")]
R['h-anchors']=[(L,"""        let status = if self.get_category(&mac_address).is_some() {
            Err(PicaCommandError::DeviceAlreadyExists(mac_address))
        } else {
            let handle = self.counter;
            self.counter += 1;

            assert!(self
                .anchors
                .insert(
                    mac_address,
                    Anchor {
                        handle,
                        mac_address,
                    },
                )
                .is_none());

            Ok(handle)
        };

        rsp_tx.send(status).unwrap_or_else(|err| {
            log::error!("Failed to send create-anchor command response: {:?}", err)
        })
""","""        let status = match self.get_category(&mac_address) {
            Some(_) => Err(PicaCommandError::DeviceAlreadyExists(mac_address)),
            None => {
                let anchor = Anchor {
                    handle: self.counter,
                    mac_address,
                };
                self.counter = anchor.handle + 1;
                let previous = self.anchors.insert(mac_address, anchor);
                debug_assert!(previous.is_none());
                Ok(anchor.handle)
            }
        };

        if let Err(err) = rsp_tx.send(status) {
            log::error!("Failed to send create-anchor command response: {:?}", err)
        }
"""),(L,"""        let status = match self.anchors.remove(&mac_address) {
            None => Err(PicaCommandError::DeviceNotFound(mac_address)),
            Some(anchor) => Ok(anchor.handle),
        };
""","""        let status = self
            .anchors
            .remove(&mac_address)
            .map(|anchor| anchor.handle)
            .ok_or_else(|| PicaCommandError::DeviceNotFound(mac_address));
""")]
R['h-disconnect-remove']=[(L,fn(L,'fn disconnect('),"""    fn disconnect(&mut self, device_handle: usize) {
        log::debug!("[{}] Disconnecting device", device_handle);

        let Some(device) = self.devices.remove(&device_handle) else {
            return;
        };
        self.send_event(PicaEvent::Disconnected {
            handle: device.handle,
            mac_address: device.mac_address,
        });
    }""")]
R['h-run-while']=[(L,"""        loop {
            if let Some(command) = command_rx.recv().await {
                self.pica_command(command)
            }
        }
""","""        // The command sender owned by pica keeps the channel open.
        loop {
            let command = match command_rx.recv().await {
                Some(command) => command,
                None => continue,
            };
            log::trace!("{}", command);
            self.pica_command(command);
        }
""")]
R['h-write-peek']=[(L,"""            let mut offset = HEADER_SIZE;
            let mt = parse_message_type(complete_packet[0]);

            while offset < complete_packet.len() {
                let remaining_length = complete_packet.len() - offset;
                let fragment_length = std::cmp::min(
                    remaining_length,
                    if mt == MessageType::Data {
                        MAX_DATA_PACKET_PAYLOAD_SIZE
                    } else {
                        MAX_CTRL_PACKET_PAYLOAD_SIZE
                    },
                );
                let pbf = if fragment_length == remaining_length {
                    PacketBoundaryFlag::Complete
                } else {
                    PacketBoundaryFlag::NotComplete
                };
""","""            let mt = parse_message_type(complete_packet[0]);
            let (header, payload) = complete_packet.split_at(HEADER_SIZE);
            let max_length = match mt {
                MessageType::Data => MAX_DATA_PACKET_PAYLOAD_SIZE,
                _ => MAX_CTRL_PACKET_PAYLOAD_SIZE,
            };

            let mut fragments = payload.chunks(max_length).peekable();
            while let Some(fragment) = fragments.next() {
                let fragment_length = fragment.len();
                let pbf = if fragments.peek().is_none() {
                    PacketBoundaryFlag::Complete
                } else {
                    PacketBoundaryFlag::NotComplete
                };
"""),(L,"""                packet.extend_from_slice(&complete_packet[0..HEADER_SIZE]);
                const""","""                packet.extend_from_slice(header);
                const"""),(L,"packet.extend_from_slice(&complete_packet[offset..offset + fragment_length]);","packet.extend_from_slice(fragment);"),(L,"""
                offset += fragment_length;
""","")]
R['h-write-splitoff']=[(L,"""            let mut offset = HEADER_SIZE;
            let mt = parse_message_type(complete_packet[0]);

            while offset < complete_packet.len() {
                let remaining_length = complete_packet.len() - offset;
                let fragment_length = std::cmp::min(
                    remaining_length,
                    if mt == MessageType::Data {
                        MAX_DATA_PACKET_PAYLOAD_SIZE
                    } else {
                        MAX_CTRL_PACKET_PAYLOAD_SIZE
                    },
                );
                let pbf = if fragment_length == remaining_length {
                    PacketBoundaryFlag::Complete
                } else {
                    PacketBoundaryFlag::NotComplete
                };
""","""            let mt = parse_message_type(complete_packet[0]);
            let max_length = if mt == MessageType::Data {
                MAX_DATA_PACKET_PAYLOAD_SIZE
            } else {
                MAX_CTRL_PACKET_PAYLOAD_SIZE
            };
            let mut remaining = &complete_packet[HEADER_SIZE..];

            while !remaining.is_empty() {
                let fragment_length = remaining.len().min(max_length);
                let (fragment, rest) = remaining.split_at(fragment_length);
                remaining = rest;
                let pbf = if remaining.is_empty() {
                    PacketBoundaryFlag::Complete
                } else {
                    PacketBoundaryFlag::NotComplete
                };
"""),(L,"packet.extend_from_slice(&complete_packet[offset..offset + fragment_length]);","packet.extend_from_slice(fragment);"),(L,"""
                offset += fragment_length;
""",""),(L,"""                packet[0] &= !PBF_MASK;
                packet[0] |= (pbf as u8) << 4;
""","""                packet[0] = (packet[0] & !PBF_MASK) | (u8::from(pbf) << 4);
""")]
# ---- whole functions of the servers, the packet codec, the capture file and the addresses ----
HH='async fn handle_connection_events('
R['i-conn-whilelet']=[(H,fn(H,HH),"""    async fn handle_connection_events(
        self,
        mut events: broadcast::Receiver<PicaEvent>,
    ) -> Result<()> {
        use broadcast::error::RecvError;
        let category = Category::Uci;
        loop {
            let event = match events.recv().await {
                Ok(event) => event,
                Err(RecvError::Lagged(count)) => {
                    log::warn!("missed {} connection events", count);
                    continue;
                }
                Err(err) => return Err(err.into()),
            };
            let mut devices = self.devices.lock().unwrap();
            let notification = match event {
                PicaEvent::Connected { mac_address, handle } => {
                    let position = Position::default();
                    let _ = devices.insert(
                        handle,
                        DeviceInformation { category, mac_address, position },
                    );
                    Event::DeviceAdded { category, mac_address, position }
                }
                PicaEvent::Disconnected { mac_address, handle } => {
                    let _ = devices.remove(&handle);
                    Event::DeviceRemoved { category, mac_address }
                }
            };
            self.send_event(notification);
        }
    }""")]
R['i-conn-helpers']=[(H,fn(H,HH),"""    fn add_device(&self, handle: pica::Handle, information: DeviceInformation) {
        let event = Event::DeviceAdded {
            category: information.category,
            mac_address: information.mac_address,
            position: information.position,
        };
        let mut devices = self.devices.lock().unwrap();
        devices.insert(handle, information);
        self.send_event(event);
    }

    fn remove_device(&self, handle: &pica::Handle, category: Category, mac_address: MacAddress) {
        self.devices.lock().unwrap().remove(handle);
        self.send_event(Event::DeviceRemoved {
            category,
            mac_address,
        });
    }

    async fn handle_connection_events(
        self,
        mut events: broadcast::Receiver<PicaEvent>,
    ) -> Result<()> {
        loop {
            match events.recv().await {
                Ok(PicaEvent::Connected {
                    mac_address,
                    handle,
                }) => self.add_device(
                    handle,
                    DeviceInformation {
                        category: Category::Uci,
                        mac_address,
                        position: Position::default(),
                    },
                ),
                Ok(PicaEvent::Disconnected {
                    mac_address,
                    handle,
                }) => self.remove_device(&handle, Category::Uci, mac_address),
                Err(broadcast::error::RecvError::Lagged(count)) => {
                    log::warn!("missed {} connection events", count)
                }
                Err(err) => anyhow::bail!(err),
            }
        }
    }"""),(H,"""                let mut devices = self.devices.lock().unwrap();
                devices.insert(
                    handle,
                    DeviceInformation {
                        position,
                        mac_address,
                        category: Category::Anchor,
                    },
                );
                self.send_event(Event::DeviceAdded {
                    category: Category::Anchor,
                    mac_address,
                    position,
                });
                HttpStatusCode::OK
""","""                self.add_device(
                    handle,
                    DeviceInformation {
                        position,
                        mac_address,
                        category: Category::Anchor,
                    },
                );
                HttpStatusCode::OK
"""),(H,"""                let mut devices = self.devices.lock().unwrap();
                devices.remove(&handle);
                self.send_event(Event::DeviceRemoved {
                    category: Category::Anchor,
                    mac_address,
                });
                HttpStatusCode::OK
""","""                self.remove_device(&handle, Category::Anchor, mac_address);
                HttpStatusCode::OK
""")]
R['i-events-fn']=[(H,fn(H,'fn http_events('),"""    fn http_events(&self) -> Response<Body> {
        fn encode(event: &Event) -> String {
            let name = event.name();
            let data = serde_json::to_string(event).unwrap();
            let mut text = String::from("event: ");
            text.push_str(name);
            text.push_str("\\ndata: ");
            text.push_str(&data);
            text.push_str("\\n\\n");
            text
        }
        let receiver = self.events.subscribe();
        let stream = BroadcastStream::new(receiver).map(|result| match result {
            Ok(event) => Ok(encode(&event)),
            Err(err) => Err(err),
        });
        let body = Body::wrap_stream(stream);
        Response::builder()
            .status(HttpStatusCode::OK)
            .header("content-type", "text/event-stream")
            .body(body)
            .unwrap()
    }""")]
R['i-setpos-find']=[(H,fn(H,'fn http_set_position('),"""    fn http_set_position(&self, mac_address: MacAddress, position: Position) -> Response<Body> {
        log::info!("set-position({}, {})", mac_address, position);

        let empty = |status| Response::builder().status(status).body("".into()).unwrap();
        let mut devices = self.devices.lock().unwrap();
        let device = match devices
            .values_mut()
            .find(|device| device.mac_address == mac_address)
        {
            None => return empty(HttpStatusCode::NOT_FOUND),
            Some(device) => {
                device.position = position;
                device.clone()
            }
        };

        self.send_event(Event::DeviceUpdated {
            category: device.category,
            mac_address,
            position: device.position,
        });

        for other in devices
            .values()
            .filter(|other| other.mac_address != mac_address)
        {
            let (distance, azimuth, elevation) =
                position.compute_range_azimuth_elevation(&other.position);
            let (remote_distance, remote_azimuth, remote_elevation) =
                other.position.compute_range_azimuth_elevation(&position);

            assert_eq!(distance, remote_distance);

            self.send_event(Event::NeighborUpdated {
                source_category: device.category,
                source_mac_address: mac_address,
                destination_category: other.category,
                destination_mac_address: other.mac_address,
                distance,
                azimuth,
                elevation,
            });
            self.send_event(Event::NeighborUpdated {
                source_category: other.category,
                source_mac_address: other.mac_address,
                destination_category: device.category,
                destination_mac_address: mac_address,
                distance: remote_distance,
                azimuth: remote_azimuth,
                elevation: remote_elevation,
            });
        }

        empty(HttpStatusCode::OK)
    }""")]
R['i-setpos-pairs']=[(H,fn(H,'fn http_set_position('),"""    fn neighbor_updated(source: &DeviceInformation, destination: &DeviceInformation) -> Event {
        let (distance, azimuth, elevation) = source
            .position
            .compute_range_azimuth_elevation(&destination.position);
        Event::NeighborUpdated {
            source_category: source.category,
            source_mac_address: source.mac_address,
            destination_category: destination.category,
            destination_mac_address: destination.mac_address,
            distance,
            azimuth,
            elevation,
        }
    }

    fn http_set_position(&self, mac_address: MacAddress, position: Position) -> Response<Body> {
        log::info!("set-position({}, {})", mac_address, position);

        let mut devices = self.devices.lock().unwrap();
        let key = devices
            .iter()
            .find(|(_, device)| device.mac_address == mac_address)
            .map(|(handle, _)| *handle);
        let status = if let Some(device) = key.and_then(|key| devices.get_mut(&key)) {
            device.position = position;
            let device = device.clone();
            self.send_event(Event::DeviceUpdated {
                category: device.category,
                mac_address,
                position,
            });
            for (_, other) in devices.iter() {
                if other.mac_address == mac_address {
                    continue;
                }
                self.send_event(Self::neighbor_updated(&device, other));
                self.send_event(Self::neighbor_updated(other, &device));
            }
            HttpStatusCode::OK
        } else {
            HttpStatusCode::NOT_FOUND
        };

        Response::builder().status(status).body("".into()).unwrap()
    }""")]
R['i-anchor-status']=[(H,fn(H,'async fn http_create_anchor('),"""    async fn http_create_anchor(
        &self,
        mac_address: MacAddress,
        position: Position,
        cmd_tx: mpsc::Sender<PicaCommand>,
    ) -> Response<Body> {
        log::info!("create-anchor({}, {})", mac_address, position);

        let (rsp_tx, rsp_rx) = oneshot::channel();
        cmd_tx
            .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
            .await
            .ok();

        let status = if let Ok(result) = rsp_rx.await {
            match result {
                Ok(handle) => {
                    let category = Category::Anchor;
                    let mut devices = self.devices.lock().unwrap();
                    devices.insert(
                        handle,
                        DeviceInformation {
                            category,
                            mac_address,
                            position,
                        },
                    );
                    self.send_event(Event::DeviceAdded {
                        category,
                        mac_address,
                        position,
                    });
                    200
                }
                Err(err) => Self::error_status(&err),
            }
        } else {
            500
        };

        Response::builder().status(status).body(Body::empty()).unwrap()
    }

    fn error_status(err: &PicaCommandError) -> u16 {
        match err {
            PicaCommandError::DeviceAlreadyExists(_) => 409,
            PicaCommandError::DeviceNotFound(_) => 404,
        }
    }"""),(H,fn(H,'async fn http_destroy_anchor('),"""    async fn http_destroy_anchor(
        &self,
        mac_address: MacAddress,
        cmd_tx: mpsc::Sender<PicaCommand>,
    ) -> Response<Body> {
        log::info!("destroy-anchor({})", mac_address);

        let (rsp_tx, rsp_rx) = oneshot::channel();
        cmd_tx
            .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
            .await
            .ok();

        let status = match rsp_rx.await {
            Err(_) => 500,
            Ok(Err(err)) => Self::error_status(&err),
            Ok(Ok(handle)) => {
                self.devices.lock().unwrap().remove(&handle);
                self.send_event(Event::DeviceRemoved {
                    category: Category::Anchor,
                    mac_address,
                });
                200
            }
        };

        Response::builder().status(status).body(Body::empty()).unwrap()
    }""")]
R['i-anchor-send-err']=[(H,fn(H,'async fn http_destroy_anchor('),"""    async fn http_destroy_anchor(
        &self,
        mac_address: MacAddress,
        cmd_tx: mpsc::Sender<PicaCommand>,
    ) -> Response<Body> {
        let respond = |status: HttpStatusCode| {
            Response::builder()
                .status(status)
                .body(Body::from(""))
                .unwrap()
        };
        log::info!("destroy-anchor({})", mac_address);

        let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
        if let Err(err) = cmd_tx
            .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
            .await
        {
            log::error!("failed to send the command: {}", err);
            return respond(HttpStatusCode::INTERNAL_SERVER_ERROR);
        }

        let Ok(result) = rsp_rx.await else {
            return respond(HttpStatusCode::INTERNAL_SERVER_ERROR);
        };

        match result {
            Ok(handle) => {
                let mut devices = self.devices.lock().unwrap();
                devices.remove(&handle);
                self.send_event(Event::DeviceRemoved {
                    category: Category::Anchor,
                    mac_address,
                });
                respond(HttpStatusCode::OK)
            }
            Err(PicaCommandError::DeviceAlreadyExists(_)) => respond(HttpStatusCode::CONFLICT),
            Err(PicaCommandError::DeviceNotFound(_)) => respond(HttpStatusCode::NOT_FOUND),
        }
    }""")]
R['i-state-borrow']=[(H,fn(H,'fn http_get_state('),"""    fn http_get_state(&self) -> Response<Body> {
        log::info!("get-state()");

        #[derive(Serialize)]
        struct GetStateResponse<'a> {
            devices: Vec<&'a DeviceInformation>,
        }

        let guard = self.devices.lock().unwrap();
        let mut devices = Vec::with_capacity(guard.len());
        for device in guard.values() {
            devices.push(device);
        }
        let body = serde_json::to_string(&GetStateResponse { devices }).unwrap();
        drop(guard);
        Response::new(Body::from(body))
    }""")]
R['i-state-json']=[(H,fn(H,'fn http_get_state('),"""    fn http_get_state(&self) -> Response<Body> {
        log::info!("get-state()");

        let devices: Vec<DeviceInformation> = {
            let devices = self.devices.lock().unwrap();
            devices.iter().map(|(_, device)| device.clone()).collect()
        };
        let body = serde_json::json!({ "devices": devices }).to_string();
        Response::builder().body(body.into()).unwrap()
    }""")]
R['i-estimate-match']=[(H,fn(H,'fn estimate('),"""    fn estimate(
        &self,
        left: &pica::Handle,
        right: &pica::Handle,
    ) -> Option<pica::RangingMeasurement> {
        let Ok(devices) = self.devices.lock() else {
            return None;
        };
        match (devices.get(left), devices.get(right)) {
            (Some(left), Some(right)) => {
                let measurement = left
                    .position
                    .compute_range_azimuth_elevation(&right.position);
                Some(pica::RangingMeasurement {
                    range: measurement.0,
                    azimuth: measurement.1,
                    elevation: measurement.2,
                })
            }
            _ => None,
        }
    }""")]
R['i-estimate-copy']=[(H,fn(H,'fn estimate('),"""    fn estimate(
        &self,
        left: &pica::Handle,
        right: &pica::Handle,
    ) -> Option<pica::RangingMeasurement> {
        let (origin, target) = {
            let devices = self.devices.lock().ok()?;
            let position = |handle| devices.get(handle).map(|device| device.position);
            (position(left)?, position(right)?)
        };
        let (range, azimuth, elevation) = origin.compute_range_azimuth_elevation(&target);
        let mut measurement = pica::RangingMeasurement::default();
        measurement.range = range;
        measurement.azimuth = azimuth;
        measurement.elevation = elevation;
        Some(measurement)
    }""")]
REQ=fn(H,'async fn http_request(')
R['i-request-helper']=[(H,REQ,"""fn find_static_file(path: &str) -> Option<(&'static str, &'static str)> {
    for (file, mime, content) in STATIC_FILES {
        if *file == path {
            return Some((mime, content));
        }
    }
    None
}

fn error_response(status: HttpStatusCode, reason: String) -> Response<Body> {
    log::error!("{}", reason);
    Response::builder()
        .status(status)
        .body(reason.into())
        .unwrap()
}

async fn http_request(
    mut req: Request<Body>,
    cmd_tx: mpsc::Sender<PicaCommand>,
    context: Context,
) -> Result<Response<Body>, Infallible> {
    if let Some((mime, content)) = find_static_file(req.uri().path()) {
        return Ok(Response::builder()
            .header("content-type", mime)
            .body(content.into())
            .unwrap());
    }

    let body = match body::to_bytes(req.body_mut()).await {
        Ok(body) => body,
        Err(err) => {
            return Ok(error_response(
                HttpStatusCode::BAD_REQUEST,
                format!("Error while reading request body: {}", err),
            ))
        }
    };
    let path = req.uri().path().trim_start_matches('/').to_string();
    let segments: Vec<&str> = path.split('/').collect();
    Ok(match segments.as_slice() {
        ["events"] => context.http_events(),
        ["get-state"] => context.http_get_state(),
        ["init-uci-device" | "set-position", mac_address] => {
            let mac_address = mac_address!(mac_address);
            let position = position!(body);
            context.http_set_position(mac_address, position)
        }
        ["create-anchor", mac_address] => {
            let mac_address = mac_address!(mac_address);
            let position = position!(body);
            context
                .http_create_anchor(mac_address, position, cmd_tx)
                .await
        }
        ["destroy-anchor", mac_address] => {
            let mac_address = mac_address!(mac_address);
            context.http_destroy_anchor(mac_address, cmd_tx).await
        }
        _ => {
            let mut response = Response::new(Body::empty());
            *response.status_mut() = HttpStatusCode::NOT_FOUND;
            response
        }
    })
}""")]
R['i-macros-fns']=[(H,"""macro_rules! mac_address {
    ($mac_address: ident) => {
        match MacAddress::new($mac_address.to_string()) {
            Ok(mac_address) => mac_address,
            Err(err) => {
                let reason = format!("Error mac_address: {}", err);
                log::error!("{}", reason);
                return Ok(Response::builder().status(406).body(reason.into()).unwrap());
            }
        }
    };
}
""","""fn not_acceptable(reason: String) -> Response<Body> {
    log::error!("{}", reason);
    Response::builder()
        .status(HttpStatusCode::NOT_ACCEPTABLE)
        .body(reason.into())
        .unwrap()
}

fn parse_mac_address(mac_address: &str) -> Result<MacAddress, Response<Body>> {
    MacAddress::new(mac_address.to_string())
        .map_err(|err| not_acceptable(format!("Error mac_address: {}", err)))
}

fn parse_position(body: &[u8]) -> Result<Position, Response<Body>> {
    match serde_json::from_slice::<PositionBody>(body) {
        Ok(PositionBody { x, y, z, yaw, pitch, roll }) => {
            Ok(Position::new(x, y, z, yaw, pitch, roll))
        }
        Err(err) if err.is_eof() => Ok(Position::default()),
        Err(err) => Err(not_acceptable(format!(
            "Error while deserializing position: {}",
            err
        ))),
    }
}

macro_rules! mac_address {
    ($mac_address: ident) => {
        match parse_mac_address($mac_address) {
            Ok(mac_address) => mac_address,
            Err(response) => return Ok(response),
        }
    };
}
"""),(H,open('/repo/'+H).read()[open('/repo/'+H).read().index('macro_rules! position'):open('/repo/'+H).read().index('macro_rules! mac_address')],"""macro_rules! position {
    ($body: ident) => {
        match parse_position(&$body) {
            Ok(position) => position,
            Err(response) => return Ok(response),
        }
    };
}

"""),(H,"use serde_json::error::Category as SerdeErrorCategory;\n","")]
R['i-serve-listen']=[(H,fn(H,'async fn serve('),"""async fn serve(context: Context, tx: mpsc::Sender<PicaCommand>, web_port: u16) -> Result<()> {
    let make_svc = make_service_fn(|_conn| {
        let (cmd_tx, context) = (tx.clone(), context.clone());
        futures::future::ready(Ok::<_, Infallible>(service_fn(move |req| {
            let cmd_tx = cmd_tx.clone();
            let context = context.clone();
            async move { http_request(req, cmd_tx, context).await }
        })))
    });

    let address = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, web_port).into();
    let server = Server::bind(&address).serve(make_svc);
    log::info!("Pica: Web server started on http://0.0.0.0:{}", web_port);
    Ok(server.await?)
}"""),(H,fn(H,'async fn listen('),"""async fn listen(tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Result<()> {
    let uci_listener = TcpListener::bind((Ipv4Addr::LOCALHOST, uci_port)).await?;
    log::info!("Pica: Listening on: {}", uci_port);

    loop {
        let (socket, addr) = uci_listener.accept().await?;
        log::info!("Uwb host addr: {}", addr);
        let command = connect_command(socket);
        if tx.send(command).await.is_err() {
            anyhow::bail!("pica command stream closed");
        }
    }
}

fn connect_command(socket: tokio::net::TcpStream) -> PicaCommand {
    let (reader, writer) = socket.into_split();
    PicaCommand::Connect(
        Box::pin(futures::stream::unfold(reader, pica::packets::uci::read)),
        Box::pin(futures::sink::unfold(writer, pica::packets::uci::write)),
    )
}""")]
R['i-geometry']=[(Q,fn(Q,'fn azimuth('),"""fn azimuth(delta: Vec3) -> f32 {
    use std::f32::consts::{FRAC_PI_2, PI};
    let angle = match checked_div(delta.x, delta.z) {
        Some(ratio) => ratio.atan(),
        None if delta.x == 0. => 0.,
        None => delta.x.signum() * FRAC_PI_2,
    };
    if delta.z >= 0. {
        angle
    } else {
        angle + delta.x.signum() * PI
    }
}"""),(Q,fn(Q,'fn elevation('),"""fn elevation(delta: Vec3) -> f32 {
    let ground = (delta.x * delta.x + delta.z * delta.z).sqrt();
    match checked_div(delta.y, ground) {
        Some(ratio) => ratio.atan(),
        None => delta.y.signum() * std::f32::consts::FRAC_PI_2,
    }
}"""),(Q,fn(Q,'fn checked_div('),"""fn checked_div(num: f32, den: f32) -> Option<f32> {
    (den != 0.).then(|| num / den)
}""")]
R['i-geometry2']=[(Q,fn(Q,'pub fn compute_range_azimuth_elevation('),"""    fn offset(&self, other: &Position) -> Vec3 {
        other.position - self.position
    }

    pub fn compute_range_azimuth_elevation(&self, other: &Position) -> (u16, i16, i8) {
        let degrees = |angle: f32| angle.to_degrees().round();
        let delta = self.offset(other);
        let range = delta.length().min(u16::MAX as f32) as u16;

        let direction = self.rotation * delta;
        let (azimuth, elevation) = (degrees(azimuth(direction)), degrees(elevation(direction)));
        assert!(azimuth >= -180. && azimuth <= 180.);
        assert!(elevation >= -90. && elevation <= 90.);

        (range, azimuth as i16, elevation as i8)
    }""")]
R['i-pos-new']=[(Q,fn(Q,'pub fn new('),"""    pub fn new(x: i16, y: i16, z: i16, yaw: i16, pitch: i8, roll: i16) -> Self {
        let position = Vec3::new(f32::from(x), f32::from(y), f32::from(z));
        let yaw = f32::from(yaw).to_radians();
        let pitch = f32::from(pitch).to_radians();
        let roll = f32::from(roll).to_radians();
        // Rotation performed from right to left order
        let rotation = Quat::from_euler(EulerRot::ZXY, roll, pitch, yaw);
        Self { position, rotation }
    }"""),(Q,fn(Q,'fn serialize<S>('),"""    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        let (roll, pitch, yaw) = self.rotation.to_euler(EulerRot::ZXY);
        let degrees = |radians: f32| radians.to_degrees().round();
        let [x, y, z] = self.position.to_array().map(|value| value as i16);

        let mut state = serializer.serialize_struct("Position", 6)?;
        state.serialize_field("x", &x)?;
        state.serialize_field("y", &y)?;
        state.serialize_field("z", &z)?;
        state.serialize_field("yaw", &(degrees(yaw) as i16))?;
        state.serialize_field("pitch", &(degrees(pitch) as i8))?;
        state.serialize_field("roll", &(degrees(roll) as i16))?;
        state.end()
    }""")]
R['i-read-array']=[(P,fn(P,'pub async fn read('),"""    pub async fn read(
        mut socket: tokio::net::tcp::OwnedReadHalf,
    ) -> Option<(Vec<u8>, tokio::net::tcp::OwnedReadHalf)> {
        use tokio::io::AsyncReadExt;

        let mut header = [0u8; HEADER_SIZE];
        if socket.read_exact(&mut header).await.is_err() {
            return None;
        }
        let payload_length = payload_length(&header)?;

        // Read the packet payload.
        let mut payload = vec![0; payload_length];
        socket.read_exact(&mut payload).await.ok()?;

        let mut packet = header.to_vec();
        packet.append(&mut payload);
        Some((packet, socket))
    }

    fn payload_length(header: &[u8; HEADER_SIZE]) -> Option<usize> {
        let common = CommonPacketHeader::decode_full(&header[..COMMON_HEADER_SIZE]).ok()?;
        if common.mt == MessageType::Data {
            let header = DataPacketHeader::decode_full(header).ok()?;
            Some(usize::from(header.payload_length))
        } else {
            let header = ControlPacketHeader::decode_full(header).ok()?;
            Some(usize::from(header.payload_length))
        }
    }"""),(P,fn(P,'pub async fn write('),"""    pub async fn write(
        mut socket: tokio::net::tcp::OwnedWriteHalf,
        packet: Vec<u8>,
    ) -> std::result::Result<tokio::net::tcp::OwnedWriteHalf, anyhow::Error> {
        use tokio::io::AsyncWriteExt;

        match socket.write_all(packet.as_slice()).await {
            Ok(()) => Ok(socket),
            Err(err) => Err(err.into()),
        }
    }"""),(P,fn(P,'pub fn is_core_device_reset_cmd('),"""        pub fn is_core_device_reset_cmd(&self) -> bool {
            match CorePacket::try_from(self) {
                Ok(packet) => matches!(packet.oid, CoreOpcodeId::DeviceReset),
                Err(_) => false,
            }
        }"""),(P,fn(P,'pub fn parse_message_type('),"""    pub fn parse_message_type(byte: u8) -> MessageType {
        match MessageType::try_from(byte >> 5) {
            Ok(message_type) => message_type,
            Err(_) => MessageType::Command,
        }
    }""")]
R['i-pcap-vec']=[(G,fn(G,'pub fn write('),"""    pub fn write(&self, packet: &[u8], _dir: Direction) -> std::io::Result<()> {
        let timestamp = self.start_time.elapsed().as_micros() as u64;
        let padding = 4 - (packet.len() & 3);
        let total = (packet.len() + padding + 32) as u32;
        let length = packet.len() as u32;

        // Wrap the packet inside an Enhanced Packet Block.
        let mut block: Vec<u8> = Vec::with_capacity(total as usize);
        for word in [
            6, // Block Type
            total,
            0, // Interface ID
            (timestamp >> 32) as u32,
            timestamp as u32,
            length,
            length,
        ] {
            block.extend_from_slice(&word.to_le_bytes());
        }
        block.extend_from_slice(packet);
        block.resize(block.len() + padding, 0);
        block.extend_from_slice(&total.to_le_bytes());
        self.file.lock().unwrap().write_all(&block)
    }"""),(G,fn(G,'pub fn create<P'),"""    pub fn create<P: AsRef<Path>>(path: P) -> std::io::Result<File> {
        let start_time = Instant::now();
        let mut file = std::fs::File::create(path)?;

        let mut blocks = vec![];
        // Section Header Block.
        blocks.extend(0x0A0D0D0Au32.to_le_bytes());
        blocks.extend(28u32.to_le_bytes());
        blocks.extend(0x1A2B3C4Du32.to_le_bytes());
        blocks.extend([1, 0, 0, 0]); // Version 1.0
        blocks.extend(u64::MAX.to_le_bytes());
        blocks.extend(28u32.to_le_bytes());
        // Interface Description Block.
        blocks.extend(1u32.to_le_bytes());
        blocks.extend(20u32.to_le_bytes());
        blocks.extend(293u16.to_le_bytes());
        blocks.extend([0; 2]);
        blocks.extend([0; 4]);
        blocks.extend(20u32.to_le_bytes());
        file.write_all(&blocks)?;

        let file = std::sync::Mutex::new(file);
        Ok(File { file, start_time })
    }""")]
R['i-mac-try']=[(M,fn(M,'fn try_from(mac_address: String)'),"""    fn try_from(mac_address: String) -> std::result::Result<Self, Error> {
        let wrong_format = |err: hex::FromHexError| Error::MacAddressWrongFormat(err.to_string());
        let digits = mac_address.replace(':', "").replace("%3A", "");
        if digits.len() == SHORT_MAC_ADDRESS_STR_SIZE {
            let bytes = <[u8; SHORT_MAC_ADDRESS_SIZE]>::from_hex(&digits).map_err(wrong_format)?;
            Ok(MacAddress::Short(bytes))
        } else if digits.len() == EXTENDED_MAC_ADDRESS_STR_SIZE {
            let bytes = <[u8; EXTENDED_MAC_ADDRESS_SIZE]>::from_hex(&digits).map_err(wrong_format)?;
            Ok(MacAddress::Extended(bytes))
        } else {
            Err(Error::MacAddressWrongFormat(digits))
        }
    }"""),(M,fn(M,'impl From<&MacAddress> for String'),"""impl From<&MacAddress> for String {
    fn from(mac_address: &MacAddress) -> Self {
        let bytes: &[u8] = match mac_address {
            MacAddress::Short(address) => address,
            MacAddress::Extended(address) => address,
        };
        bytes
            .iter()
            .map(|byte| format!("{:02X}", byte))
            .collect::<Vec<_>>()
            .join(":")
    }
}"""),(M,fn(M,'impl From<&MacAddress> for Vec<u8>'),"""impl From<&MacAddress> for Vec<u8> {
    fn from(mac_address: &MacAddress) -> Self {
        let mut bytes = Vec::new();
        match mac_address {
            MacAddress::Short(addr) => bytes.extend_from_slice(addr),
            MacAddress::Extended(addr) => bytes.extend_from_slice(addr),
        }
        bytes
    }
}""")]
R['i-mac-u64']=[(M,fn(M,'impl From<&MacAddress> for u64'),"""impl From<&MacAddress> for u64 {
    fn from(mac_address: &MacAddress) -> Self {
        let mut bytes = [0; EXTENDED_MAC_ADDRESS_SIZE];
        match mac_address {
            MacAddress::Short(addr) => bytes[..SHORT_MAC_ADDRESS_SIZE].copy_from_slice(addr),
            MacAddress::Extended(addr) => bytes.copy_from_slice(addr),
        }
        u64::from_le_bytes(bytes)
    }
}""")]
X='src/bin/main.rs'
R['i-accept-helper']=[(X,fn(X,'async fn accept_incoming('),"""async fn accept_incoming(cmd_tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Result<()> {
    let uci_listener = TcpListener::bind((Ipv4Addr::LOCALHOST, uci_port)).await?;
    log::info!("Pica: Listening on: {}", uci_port);

    loop {
        let (socket, addr) = uci_listener.accept().await?;
        log::info!("Uwb host addr: {}", addr);
        handle_connection(&cmd_tx, socket).await?;
    }
}

async fn handle_connection(
    cmd_tx: &mpsc::Sender<PicaCommand>,
    socket: tokio::net::TcpStream,
) -> Result<()> {
    let (read_half, write_half) = socket.into_split();
    let stream = futures::stream::unfold(read_half, pica::packets::uci::read);
    let sink = futures::sink::unfold(write_half, pica::packets::uci::write);
    let command = PicaCommand::Connect(Box::pin(stream), Box::pin(sink));
    match cmd_tx.send(command).await {
        Ok(()) => Ok(()),
        Err(_) => Err(anyhow::anyhow!("pica command stream closed")),
    }
}"""),(X,"use std::net::{Ipv4Addr, SocketAddrV4};","use std::net::Ipv4Addr;")]
# ---- more whole functions of the device ----
SA=fn(D,'fn session_set_app_config(')
R['j-setapp-split']=[(D,SA,"""    fn apply_app_config(
        app_config: &mut crate::app_config::AppConfig,
        tlvs: Vec<uci::AppConfigTlv>,
    ) -> Vec<AppConfigStatus> {
        tlvs.into_iter()
            .filter_map(|cfg| match app_config.set(cfg.cfg_id, &cfg.v) {
                Ok(()) => None,
                Err(_) => Some(AppConfigStatus {
                    cfg_id: cfg.cfg_id,
                    status: uci::Status::InvalidParam,
                }),
            })
            .collect()
    }

    fn session_set_app_config(&mut self, cmd: SessionSetAppConfigCmd) -> SessionSetAppConfigRsp {
        let session_handle = cmd.session_token;
        let reply = |status| SessionSetAppConfigRsp {
            status,
            cfg_status: vec![],
        };

        log::debug!(
            "[{}:0x{:x}] Session Set App Config",
            self.handle,
            session_handle
        );

        let session = match self.sessions.get_mut(&session_handle) {
            Some(session) => session,
            None => return reply(uci::Status::ErrorSessionNotExist),
        };

        if !matches!(
            session.session_type,
            SessionType::FiraRangingSession | SessionType::FiraRangingAndInBandDataSession
        ) {
            return reply(uci::Status::Rejected);
        }

        let in_init = match session.state {
            SessionState::SessionStateInit => true,
            SessionState::SessionStateActive => {
                for cfg in &cmd.tlvs {
                    if cfg.cfg_id == AppConfigTlvType::AoaResultReq {
                        return reply(uci::Status::ErrorSessionActive);
                    }
                }
                false
            }
            _ => return reply(uci::Status::Rejected),
        };

        let mut app_config = session.app_config.clone();
        let cfg_status = Self::apply_app_config(&mut app_config, cmd.tlvs);

        let complete = app_config.device_role.is_some()
            && app_config.multi_node_mode.is_some()
            && app_config.ranging_round_usage.is_some()
            && app_config.device_mac_address.is_some()
            && app_config.schedule_mode.is_some();
        if !complete {
            log::error!(
                "[{}:0x{:x}] missing mandatory APP config parameters",
                self.handle,
                session_handle
            );
            return reply(uci::Status::Rejected);
        }

        if !cfg_status.is_empty() {
            return SessionSetAppConfigRsp {
                status: uci::Status::InvalidParam,
                cfg_status,
            };
        }

        session.app_config = app_config;
        if in_init {
            session.set_state(
                SessionState::SessionStateIdle,
                ReasonCode::StateChangeWithSessionManagementCommands,
            );
        }
        reply(uci::Status::Ok)
    }""")]
R['j-setapp-mandatory']=[(D,"""            if app_config.device_role.is_none()
                || app_config.multi_node_mode.is_none()
                || app_config.ranging_round_usage.is_none()
                || app_config.device_mac_address.is_none()
                || app_config.schedule_mode.is_none()
            {""","""            let missing = [
                app_config.device_role.is_none(),
                app_config.multi_node_mode.is_none(),
                app_config.ranging_round_usage.is_none(),
                app_config.device_mac_address.is_none(),
                app_config.schedule_mode.is_none(),
            ];
            if missing.contains(&true) {"""),(D,"""            if cmd
                .tlvs
                .iter()
                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))
            {""","""            let mut immutable = cmd
                .tlvs
                .iter()
                .filter(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id));
            if immutable.next().is_some() {""")]
R['j-getapp-result']=[(D,fn(D,'fn session_get_app_config('),"""    fn session_get_app_config(&self, cmd: SessionGetAppConfigCmd) -> SessionGetAppConfigRsp {
        let session_handle = cmd.session_token;

        log::debug!(
            "[{}:0x{:x}] Session Get App Config",
            self.handle,
            session_handle
        );

        let Some(session) = self.session(session_handle) else {
            return SessionGetAppConfigRsp {
                tlvs: vec![],
                status: uci::Status::ErrorSessionNotExist,
            };
        };

        let tlvs: Result<Vec<_>, _> = cmd
            .app_cfg
            .iter()
            .map(|&cfg_id| {
                let v = session.app_config.get(cfg_id)?;
                anyhow::Ok(AppConfigTlv { cfg_id, v })
            })
            .collect();
        match tlvs {
            Ok(tlvs) => SessionGetAppConfigRsp {
                tlvs,
                status: uci::Status::Ok,
            },
            Err(err) => {
                log::debug!("{}", err);
                SessionGetAppConfigRsp {
                    tlvs: vec![],
                    status: uci::Status::Failed,
                }
            }
        }
    }""")]
R['j-getapp-early']=[(D,fn(D,'fn session_get_app_config('),"""    fn session_get_app_config(&self, cmd: SessionGetAppConfigCmd) -> SessionGetAppConfigRsp {
        let session_handle = cmd.session_token;
        let mut rsp = SessionGetAppConfigRsp {
            tlvs: Vec::new(),
            status: uci::Status::Ok,
        };

        log::debug!(
            "[{}:0x{:x}] Session Get App Config",
            self.handle,
            session_handle
        );

        match self.sessions.get(&session_handle) {
            None => rsp.status = uci::Status::ErrorSessionNotExist,
            Some(session) => {
                for id in cmd.app_cfg.iter().copied() {
                    let Ok(v) = session.app_config.get(id) else {
                        rsp.status = uci::Status::Failed;
                        rsp.tlvs.clear();
                        break;
                    };
                    rsp.tlvs.push(AppConfigTlv { cfg_id: id, v });
                }
            }
        }
        rsp
    }""")]
MC=fn(D,'fn session_update_controller_multicast_list(')
i0=MC.index("        let new_controlees: Vec<Controlee> = match action"); i1=MC.index("        let mut controlee_status_ntf")
R['j-mc-decode-fn']=[(D,MC[i0:i1],"""        let Some(new_controlees) = decode_controlees(action, &cmd.payload) else {
            return SessionUpdateControllerMulticastListRsp {
                status: uci::Status::SyntaxError,
                controlee_status: vec![],
            };
        };
"""),(D,"impl From<&uci::Controlee> for Controlee {","""fn decode_controlees(
    action: UpdateMulticastListAction,
    payload: &[u8],
) -> Option<Vec<Controlee>> {
    let controlees = match action {
        UpdateMulticastListAction::AddControleeWithShortSubSessionKey => {
            let packet =
                SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::decode_full(payload)
                    .ok()?;
            packet.controlees.iter().map(Controlee::from).collect()
        }
        UpdateMulticastListAction::AddControleeWithExtendedSubSessionKey => {
            let packet =
                SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload::decode_full(payload)
                    .ok()?;
            packet.controlees.iter().map(Controlee::from).collect()
        }
        UpdateMulticastListAction::AddControlee | UpdateMulticastListAction::RemoveControlee => {
            let packet =
                SessionUpdateControllerMulticastListCmdPayload::decode_full(payload).ok()?;
            packet.controlees.iter().map(Controlee::from).collect()
        }
    };
    Some(controlees)
}

impl From<&uci::Controlee> for Controlee {""")]
a0=MC.index("                new_controlees.iter().for_each(|controlee| {"); a1=MC.index("            UpdateMulticastListAction::RemoveControlee => {\n                new_controlees")
R['j-mc-add-for']=[(D,MC[a0:a1],"""                let with_key = action != UpdateMulticastListAction::AddControlee;
                let key_applicable = session.app_config.sts_config
                    == uci::StsConfig::ProvisionedForResponderSubSessionKey;
                for controlee in new_controlees {
                    let address = controlee.short_address;
                    let mac_address = match address {
                        MacAddress::Short(address) => address,
                        MacAddress::Extended(_) => panic!("Extended address is not supported!"),
                    };
                    if with_key && !key_applicable {
                        status = uci::Status::Failed;
                        controlee_status_ntf.push(ControleeStatus {
                            mac_address,
                            status: MulticastUpdateStatus::ErrorSubSessionKeyNotApplicable,
                        });
                        continue;
                    }
                    let update_status = if dst_addresses.iter().any(|dst| *dst == address) {
                        status = uci::Status::Failed;
                        MulticastUpdateStatus::ErrorAddressAlreadyPresent
                    } else if dst_addresses.len() < MAX_NUMBER_OF_CONTROLEES {
                        dst_addresses.push(address);
                        MulticastUpdateStatus::OkMulticastListUpdate
                    } else {
                        status = uci::Status::ErrorMulticastListFull;
                        MulticastUpdateStatus::ErrorMulticastListFull
                    };
                    controlee_status_rsp.push(ControleeStatus {
                        mac_address,
                        status: update_status,
                    });
                }
            }
""")]
b0=a1; b1=MC.index("                // Following requirements are applicable when the action")
R['j-mc-del-position']=[(D,MC[b0:b1],"""            UpdateMulticastListAction::RemoveControlee => {
                let attempts = session.app_config.in_band_termination_attempt_count;
                for Controlee { short_address, .. } in &new_controlees {
                    let address = *short_address;
                    let mac_address = match address {
                        MacAddress::Short(addr) => addr,
                        MacAddress::Extended(_) => panic!("Extended address is not supported!"),
                    };
                    let update_status = match dst_addresses.iter().position(|dst| *dst == address) {
                        None => {
                            status = uci::Status::Failed;
                            MulticastUpdateStatus::ErrorAddressNotFound
                        }
                        Some(_) => {
                            dst_addresses.retain(|dst| dst != &address);
                            let pica_tx = self.pica_tx.clone();
                            if attempts > 0 {
                                tokio::spawn(async move {
                                    let mut sent = 0;
                                    while sent < attempts {
                                        pica_tx
                                            .send(PicaCommand::StopRanging(address, session_handle))
                                            .await
                                            .unwrap();
                                        sent += 1;
                                    }
                                });
                            }
                            controlee_status_ntf.push(ControleeStatus {
                                mac_address,
                                status: MulticastUpdateStatus::OkMulticastListUpdate,
                            });
                            MulticastUpdateStatus::OkMulticastListUpdate
                        }
                    };
                    controlee_status_rsp.push(ControleeStatus {
                        mac_address,
                        status: update_status,
                    });
                }
""")]
R['j-read-split']=[(L,fn(L,'async fn read_routine('),"""    async fn read_routine(
        mut uci_stream: impl futures::stream::Stream<Item = Vec<u8>> + Unpin,
        cmd_tx: mpsc::Sender<PicaCommand>,
        handle: Handle,
        pcapng_file: Option<&pcapng::File>,
    ) -> anyhow::Result<()> {
        use futures::stream::StreamExt;
        use packets::uci::{CommonPacketHeader, MessageType, PacketBoundaryFlag};

        let mut segments: Option<Vec<u8>> = None;
        while let Some(packet) = uci_stream.next().await {
            if packet.len() < HEADER_SIZE {
                return Err(anyhow::anyhow!("truncated packet header"));
            }
            let header = CommonPacketHeader::decode_full(&packet[..COMMON_HEADER_SIZE])?;
            if let Some(file) = pcapng_file {
                file.write(&packet, pcapng::Direction::Tx)?;
            }

            // Data packets are not reassembled, and may be received
            // in between the segments of a control packet.
            let complete = if header.mt == MessageType::Data {
                packet
            } else {
                let assembled = match segments.take() {
                    None => packet,
                    Some(mut assembled) => {
                        assembled.extend_from_slice(&packet[HEADER_SIZE..]);
                        assembled
                    }
                };
                if header.pbf != PacketBoundaryFlag::Complete {
                    segments = Some(assembled);
                    continue;
                }
                assembled
            };
            cmd_tx
                .send(PicaCommand::UciPacket(handle, complete))
                .await
                .unwrap();
        }
        anyhow::bail!("input packet stream closed")
    }""")]
R['j-reset-fields']=[(D,fn(D,'fn core_device_reset('),"""    fn core_device_reset(&mut self, cmd: CoreDeviceResetCmd) -> CoreDeviceResetRsp {
        let reset_config = cmd.reset_config;
        log::debug!("[{}] DeviceReset", self.handle);
        log::debug!("  reset_config={:?}", reset_config);

        let mut device = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        device.is_reset = true;
        let _ = std::mem::replace(self, device);
        self.init();

        let status = uci::Status::Ok;
        CoreDeviceResetRsp { status }
    }"""),(D,fn(D,'fn session_get_state('),"""    fn session_get_state(&self, cmd: SessionGetStateCmd) -> SessionGetStateRsp {
        let session_handle = cmd.session_token;

        log::debug!("[{}:0x{:x}] Session Get State", self.handle, session_handle);

        let (status, session_state) = match self.session(session_handle) {
            Some(session) => (uci::Status::Ok, session.session_state()),
            None => (
                uci::Status::ErrorSessionNotExist,
                SessionState::SessionStateInit,
            ),
        };
        SessionGetStateRsp {
            status,
            session_state,
        }
    }"""),(D,fn(D,'fn session_get_ranging_count('),"""    fn session_get_ranging_count(
        &self,
        cmd: SessionGetRangingCountCmd,
    ) -> SessionGetRangingCountRsp {
        log::debug!(
            "[{}:0x{:x}] Session Get Ranging Count",
            self.handle,
            cmd.session_id
        );

        self.sessions
            .get(&cmd.session_id)
            .map(|session| SessionGetRangingCountRsp {
                status: uci::Status::Ok,
                count: session.sequence_number,
            })
            .unwrap_or(SessionGetRangingCountRsp {
                status: uci::Status::ErrorSessionNotExist,
                count: 0,
            })
    }""")]
