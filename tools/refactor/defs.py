D,S,L,A='src/device.rs','src/session.rs','src/lib.rs','src/app_config.rs'
R={}
# helper extracted: session stop
R['stop-helper']=[(D,"""        session.stop_ranging_task();
        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );

        self.n_active_sessions -= 1;
        if self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }

        SessionStopRsp {""","""        session.stop_ranging_task();
        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
        self.session_deactivated();

        SessionStopRsp {"""),
(D,"""    fn session_get_ranging_count(
        &self,""","""    fn session_deactivated(&mut self) {
        self.n_active_sessions -= 1;
        if self.n_active_sessions > 0 {
            return;
        }
        self.set_state(DeviceState::DeviceStateReady);
    }

    fn session_get_ranging_count(
        &self,"""),
(D,"""                if session.state == SessionState::SessionStateActive {
                    self.n_active_sessions -= 1;
                    if self.n_active_sessions == 0 {
                        self.set_state(DeviceState::DeviceStateReady);
                    }
                }
                self.sessions.remove""","""                if session.state == SessionState::SessionStateActive {
                    self.session_deactivated();
                }
                self.sessions.remove"""),
(D,"""            if was_active {
                self.n_active_sessions -= 1;
                if self.n_active_sessions == 0 {
                    self.set_state(DeviceState::DeviceStateReady);
                }
            }""","""            if was_active {
                self.session_deactivated();
            }""")]
# reorder statements
R['start-reorder']=[(D,"""        session.set_state(
            SessionState::SessionStateActive,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );

        self.n_active_sessions += 1;
        self.set_state(DeviceState::DeviceStateActive);
""","""        self.n_active_sessions += 1;
        session.set_state(
            SessionState::SessionStateActive,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
        self.set_state(DeviceState::DeviceStateActive);
"""),(D,"""        let tx = self.pica_tx.clone();
        let handle = self.handle;
        session.ranging_task = Some(tokio::spawn(async move {
            loop {
                time::sleep(ranging_interval).await;
                tx.send(PicaCommand::Ranging(handle, session_id))
                    .await
                    .unwrap();
            }
        }));
""","""        let handle = self.handle;
        let tx = self.pica_tx.clone();
        let timer = async move {
            loop {
                time::sleep(ranging_interval).await;
                let event = PicaCommand::Ranging(handle, session_id);
                tx.send(event).await.unwrap();
            }
        };
        session.ranging_task.replace(tokio::spawn(timer));
""")]
# caps as for loop push
R['caps-loop']=[(D,"""        let caps = DEFAULT_CAPS_INFO
            .iter()
            .map(|(id, value)| CapTlv {
                t: *id,
                v: (*value).into(),
            })
            .collect();
""","""        let mut caps = Vec::new();
        for (id, value) in DEFAULT_CAPS_INFO {
            caps.push(CapTlv {
                t: *id,
                v: value.to_vec(),
            });
        }
""")]
# set_config with extracted status variable
R['setconfig-match']=[(D,"""        let mut invalid_parameters = vec![];
        for parameter in cmd.parameters {
            match parameter.id {
                uci::ConfigParameterId::DeviceState => {
                    invalid_parameters.push(uci::ConfigParameterStatus {
                        id: parameter.id,
                        status: uci::Status::ReadOnly,
                    })
                }
                uci::ConfigParameterId::LowPowerMode => {
                    self.config.low_power_mode = parameter.value.first().copied().unwrap_or(1) != 0;
                }
                uci::ConfigParameterId::Rfu(id) => {
                    log::warn!("unknown config parameter id 0x{:02x}", *id);
                    invalid_parameters.push(uci::ConfigParameterStatus {
                        id: parameter.id,
                        status: uci::Status::InvalidParam,
                    })
                }
            }
        }
""","""        let mut invalid_parameters = vec![];
        for parameter in cmd.parameters.iter() {
            let status = match parameter.id {
                uci::ConfigParameterId::DeviceState => uci::Status::ReadOnly,
                uci::ConfigParameterId::LowPowerMode => {
                    self.config.low_power_mode = match parameter.value.first() {
                        Some(value) => *value != 0,
                        None => true,
                    };
                    continue;
                }
                uci::ConfigParameterId::Rfu(id) => {
                    log::warn!("unknown config parameter id 0x{:02x}", *id);
                    uci::Status::InvalidParam
                }
            };
            invalid_parameters.push(uci::ConfigParameterStatus { id: parameter.id, status });
        }
""")]
# get_config partition
R['getappcfg-early']=[(D,"""        let (status, valid_parameters) = {
            let mut valid_parameters = vec![];
            let mut invalid_parameters = vec![];
            for id in cmd.app_cfg {
                match session.app_config.get(id) {
                    Ok(value) => valid_parameters.push(AppConfigTlv {
                        cfg_id: id,
                        v: value,
                    }),
                    Err(_) => invalid_parameters.push(AppConfigTlv {
                        cfg_id: id,
                        v: vec![],
                    }),
                }
            }

            if invalid_parameters.is_empty() {
                (uci::Status::Ok, valid_parameters)
            } else {
                (uci::Status::Failed, Vec::new())
            }
        };
""","""        let mut valid_parameters = vec![];
        let mut failed = false;
        for id in cmd.app_cfg {
            if let Ok(v) = session.app_config.get(id) {
                valid_parameters.push(AppConfigTlv { cfg_id: id, v });
            } else {
                failed = true;
            }
        }

        let status = if failed {
            valid_parameters.clear();
            uci::Status::Failed
        } else {
            uci::Status::Ok
        };
""")]
R['getappcfg-collect']=[(D,R['getappcfg-early'][0][1],"""        let tlvs: Result<Vec<AppConfigTlv>, _> = cmd
            .app_cfg
            .iter()
            .map(|&cfg_id| session.app_config.get(cfg_id).map(|v| AppConfigTlv { cfg_id, v }))
            .collect();
        let (status, valid_parameters) = match tlvs {
            Ok(tlvs) => (uci::Status::Ok, tlvs),
            Err(_) => (uci::Status::Failed, vec![]),
        };
""")]
R['setappcfg']=[(D,"""            for cfg in cmd.tlvs {
                match app_config.set(cfg.cfg_id, &cfg.v) {
                    Ok(_) => (),
                    Err(_) => invalid_parameters.push(AppConfigStatus {
                        cfg_id: cfg.cfg_id,
                        status: uci::Status::InvalidParam,
                    }),
                }
            }
""","""            for cfg in &cmd.tlvs {
                if app_config.set(cfg.cfg_id, &cfg.v).is_err() {
                    let status = uci::Status::InvalidParam;
                    invalid_parameters.push(AppConfigStatus { cfg_id: cfg.cfg_id, status });
                }
            }
"""),(D,"""            if app_config.device_role.is_none()
                || app_config.multi_node_mode.is_none()
                || app_config.ranging_round_usage.is_none()
                || app_config.device_mac_address.is_none()
                || app_config.schedule_mode.is_none()
            {""","""            if !Self::has_mandatory(&app_config) {"""),
(D,"""    fn session_get_app_config(&self""","""    fn has_mandatory(config: &crate::app_config::AppConfig) -> bool {
        config.device_role.is_some()
            && config.multi_node_mode.is_some()
            && config.ranging_round_usage.is_some()
            && config.device_mac_address.is_some()
            && config.schedule_mode.is_some()
    }

    fn session_get_app_config(&self"""),
(D,"""            const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
            if cmd
                .tlvs
                .iter()
                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))
            {""","""            let mut immutable = false;
            for cfg in cmd.tlvs.iter() {
                immutable |= cfg.cfg_id == AppConfigTlvType::AoaResultReq;
            }
            if immutable {""")]
R['filtermap']=[(D,"""            let mut invalid_parameters = vec![];
            for cfg in cmd.tlvs {
                match app_config.set(cfg.cfg_id, &cfg.v) {
                    Ok(_) => (),
                    Err(_) => invalid_parameters.push(AppConfigStatus {
                        cfg_id: cfg.cfg_id,
                        status: uci::Status::InvalidParam,
                    }),
                }
            }
""","""            let invalid_parameters: Vec<AppConfigStatus> = cmd
                .tlvs
                .iter()
                .filter_map(|cfg| match app_config.set(cfg.cfg_id, &cfg.v) {
                    Ok(_) => None,
                    Err(_) => Some(AppConfigStatus {
                        cfg_id: cfg.cfg_id,
                        status: uci::Status::InvalidParam,
                    }),
                })
                .collect();
""")]
# multicast: for loops instead of for_each; helper for address
R['multicast-for']=[(D,"new_controlees.iter().for_each(|controlee| {","for controlee in &new_controlees {"),
(D,"""                            status: update_status,
                        });
                    }
                });
            }
            UpdateMulticastListAction::RemoveControlee => {
                new_controlees.iter().for_each(|controlee: &Controlee| {""","""                            status: update_status,
                        });
                    }
                }
            }
            UpdateMulticastListAction::RemoveControlee => {
                new_controlees.iter().for_each(|controlee: &Controlee| {""")]
R['multicast-if']=[(D,"""                        if !dst_addresses.contains(&controlee.short_address) {
                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                status = uci::Status::ErrorMulticastListFull;
                                update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                            } else {
                                dst_addresses.push(controlee.short_address);
                            };
                        } else {
                            status = uci::Status::Failed;
                            update_status = MulticastUpdateStatus::ErrorAddressAlreadyPresent;
                        }
""","""                        if dst_addresses.iter().any(|a| *a == controlee.short_address) {
                            status = uci::Status::Failed;
                            update_status = MulticastUpdateStatus::ErrorAddressAlreadyPresent;
                        } else if dst_addresses.len() < MAX_NUMBER_OF_CONTROLEES {
                            dst_addresses.push(controlee.short_address);
                        } else {
                            status = uci::Status::ErrorMulticastListFull;
                            update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                        }
"""),(D,"""                    if !dst_addresses.contains(&address) {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
                        dst_addresses.retain(|value| *value != address);""","""                    let present = dst_addresses.contains(&address);
                    if !present {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
                        dst_addresses.retain(|value| value != &address);""")]
R['ranging-filter']=[(L,"""        for mac_address in session.get_dst_mac_address() {
            if let Some(other) = self.anchors.get(mac_address) {
                let Some(local) = self
                    .ranging_estimator
                    .estimate(&device.handle, &other.handle)
                else {
                    continue;
                };
                let Some(remote) = self
                    .ranging_estimator
                    .estimate(&other.handle, &device.handle)
                else {
                    continue;
                };
                measurements.extend(make_measurement(mac_address, local, remote));
            }
        }
""","""        for mac_address in session.get_dst_mac_address() {
            let Some(other) = self.anchors.get(mac_address) else {
                continue;
            };
            if let Some((local, remote)) = self.estimate_both(device.handle, other.handle) {
                if let Some(measurement) = make_measurement(mac_address, local, remote) {
                    measurements.push(measurement);
                }
            }
        }
"""),(L,"""                if let (Some(local), Some(remote)) = (
                    self.ranging_estimator
                        .estimate(&device.handle, &peer_device.handle),
                    self.ranging_estimator
                        .estimate(&peer_device.handle, &device.handle),
                ) {
                    measurements.extend(make_measurement(&peer_mac_address, local, remote));
                }
""","""                if let Some((local, remote)) = self.estimate_both(device.handle, peer_device.handle) {
                    measurements.extend(make_measurement(&peer_mac_address, local, remote));
                }
"""),(L,"""    fn uci_packet(&mut self""","""    fn estimate_both(
        &self,
        local: Handle,
        remote: Handle,
    ) -> Option<(RangingMeasurement, RangingMeasurement)> {
        Some((
            self.ranging_estimator.estimate(&local, &remote)?,
            self.ranging_estimator.estimate(&remote, &local)?,
        ))
    }

    fn uci_packet(&mut self""")]
R['ranging-collect']=[(L,"""        let mut measurements = Vec::new();

        // Look""","""
        // Look"""),(L,R['ranging-filter'][0][1],"""        let mut measurements: Vec<_> = session
            .get_dst_mac_address()
            .iter()
            .filter_map(|mac_address| {
                let other = self.anchors.get(mac_address)?;
                let local = self.ranging_estimator.estimate(&device.handle, &other.handle)?;
                let remote = self.ranging_estimator.estimate(&other.handle, &device.handle)?;
                make_measurement(mac_address, local, remote)
            })
            .collect();
""")]
R['ranging-peers']=[(L,"""        for peer_device in self.devices.values() {
            if peer_device.handle == device_handle {
                continue;
            }

            if peer_device""","""        for peer_device in self
            .devices
            .values()
            .filter(|peer| peer.handle != device_handle)
        {
            if peer_device"""),(L,"""        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();""","""        // TODO: Clean the data only when all the data is transfered
        if let Some(session) = self
            .get_device_mut(device_handle)
            .and_then(|device| device.session_mut(session_id))
        {
            session.clear_data();
        }""")]
R['ranging-send']=[(L,"""        for peer_device in data_transfer.iter() {
            // An error here means that the peer is disconnecting, ignore it.
            let _ = peer_device.tx.send(
                DataMessageRcv {
                    application_data: session.data().clone().into(),
                    data_sequence_number: 0x01,
                    pbf: PacketBoundaryFlag::Complete,
                    session_handle: session_id,
                    source_address: session.app_config.device_mac_address.unwrap().into(),
                    status: uci::Status::Ok,
                }
                .encode_to_vec()
                .unwrap(),
            );
        }
        if session.is""","""        for peer_device in data_transfer {
            let packet = DataMessageRcv {
                application_data: session.data().to_vec(),
                data_sequence_number: 0x01,
                pbf: PacketBoundaryFlag::Complete,
                session_handle: session_id,
                source_address: session.app_config.device_mac_address.unwrap().into(),
                status: uci::Status::Ok,
            };
            // An error here means that the peer is disconnecting, ignore it.
            let _ = peer_device.tx.send(packet.encode_to_vec().unwrap());
        }
        let info_enabled = session.is_session_info_ntf_enabled();
        if info_enabled {
        //if session.is"""),(L,"        //if session.is_session_info_ntf_enabled() {\n","")]
R['instop']=[(L,"""        for device in self.devices.values_mut() {
            let Some(session) = device.session_mut(session_id) else {
                continue;
            };

            if session.app_config.device_mac_address != Some(*mac_address) {
                continue;
            }

            if session""","""        for (_, device) in self.devices.iter_mut() {
            let session = match device.session_mut(session_id) {
                Some(session) if session.app_config.device_mac_address == Some(*mac_address) => session,
                _ => continue,
            };

            if session""")]
R['anchor-entry']=[(L,"""        let status = if self.get_category(&mac_address).is_some() {
            Err(PicaCommandError::DeviceAlreadyExists(mac_address))
        } else {
            let handle = self.counter;
            self.counter += 1;

            assert!(self
                .anchors
                .insert(
                    mac_address,
                    Anchor {
                        handle,
                        mac_address,
                    },
                )
                .is_none());

            Ok(handle)
        };
""","""        let status = match self.get_category(&mac_address) {
            Some(_) => Err(PicaCommandError::DeviceAlreadyExists(mac_address)),
            None => {
                let handle = self.next_handle();
                let anchor = Anchor { handle, mac_address };
                self.anchors.insert(mac_address, anchor);
                Ok(handle)
            }
        };
"""),(L,"""    #[allow(clippy::map_entry)]
""","""    fn next_handle(&mut self) -> Handle {
        let handle = self.counter;
        self.counter += 1;
        handle
    }

    #[allow(clippy::map_entry)]
"""),(L,"""        let handle = self.counter;
        self.counter += 1;

        log::debug!("[{}] Conn""","""        let handle = self.next_handle();

        log::debug!("[{}] Conn"""),
(L,"""            .iter()
            .any(|(_, device)| device.mac_address == *mac_address)""","""            .values()
            .any(|device| &device.mac_address == mac_address)"""),
(L,"""        let status = match self.anchors.remove(&mac_address) {
            None => Err(PicaCommandError::DeviceNotFound(mac_address)),
            Some(anchor) => Ok(anchor.handle),
        };
""","""        let status = self
            .anchors
            .remove(&mac_address)
            .map(|anchor| anchor.handle)
            .ok_or(PicaCommandError::DeviceNotFound(mac_address));
""")]
R['disconnect']=[(L,"""        if let Some(device) = self.devices.get(&device_handle) {
            self.send_event(PicaEvent::Disconnected {
                handle: device_handle,
                mac_address: device.mac_address,
            });
            self.devices.remove(&device_handle);
        }""","""        let Some(device) = self.devices.remove(&device_handle) else {
            return;
        };
        let mac_address = device.mac_address;
        self.send_event(PicaEvent::Disconnected {
            handle: device.handle,
            mac_address,
        });""")]
R['session-state']=[(S,"""        // No transition: ignore
        if session_state == self.state {
            return;
        }

        // Send status notification
        self.state = session_state;
        let tx = self.tx.clone();
        let session_id = self.id;
        tokio::spawn(async move {
            time::sleep(Duration::from_millis(1)).await;
            // An error here means that the host is disconnected, ignore it.
            let _ = tx.send(
                SessionStatusNtf {
                    session_token: session_id,
                    session_state,
                    reason_code: reason_code.into(),
                }
                .encode_to_vec()
                .unwrap(),
            );
        });""","""        if session_state != self.state {
            self.state = session_state;
            self.notify(reason_code);
        }"""),(S,"""    pub fn get_dst_mac""","""    fn notify(&self, reason_code: ReasonCode) {
        let tx = self.tx.clone();
        let packet = SessionStatusNtf {
            session_token: self.id,
            session_state: self.state,
            reason_code: reason_code.into(),
        }
        .encode_to_vec()
        .unwrap();
        tokio::spawn(async move {
            time::sleep(Duration::from_millis(1)).await;
            let _ = tx.send(packet);
        });
    }

    pub fn get_dst_mac"""),(S,"""        if let Some(handle) = &self.ranging_task {
            handle.abort();
            self.ranging_task = None;
        }""","""        if let Some(handle) = self.ranging_task.take() {
            handle.abort();
        }""")]
R['device-misc']=[(D,"""        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session.session_type() == SessionType::FiraRangingAndInBandDataSession
                    && session.app_config.can_start_data_transfer()
            }
            None => false,
        }""","""        let Some(session) = self.session(session_id) else {
            return false;
        };
        session.session_state() == SessionState::SessionStateActive
            && session.session_type() == SessionType::FiraRangingAndInBandDataSession
            && session.app_config.can_start_data_transfer()"""),
(D,"""        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session.session_type() == SessionType::FiraRangingAndInBandDataSession
                    && session.app_config.can_receive_data_transfer()
            }
            None => false,
        }""","""        self.session(session_id).map_or(false, |session| {
            session.session_state() == SessionState::SessionStateActive
                && session.session_type() == SessionType::FiraRangingAndInBandDataSession
                && session.app_config.can_receive_data_transfer()
        })"""),
(D,"""        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session
                        .app_config
                        .is_compatible_for_ranging(&peer_session.app_config)
            }
            None => false,
        }""","""        self.session(session_id).is_some_and(|session| {
            matches!(session.session_state(), SessionState::SessionStateActive)
                && session
                    .app_config
                    .is_compatible_for_ranging(&peer_session.app_config)
        })"""),
(D,"""            self.sessions.insert(
                session_id,
                Session::new(session_id, session_type, self.handle, self.tx.clone()),
            );
            // Should not fail
            self.session_mut(session_id).unwrap().init();
            uci::Status::Ok""","""            let mut session = Session::new(session_id, session_type, self.handle, self.tx.clone());
            session.init();
            self.sessions.insert(session_id, session);
            uci::Status::Ok"""),
(D,"""        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        self.is_reset = true;
        self.init();
""","""        let mut fresh = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        fresh.is_reset = true;
        fresh.init();
        *self = fresh;
"""),
(D,"""        if !self.is_reset && !cmd.is_core_device_reset_cmd() {
            return uci::CoreDeviceStatusNtf {
                device_state: DeviceState::DeviceStateError,
            }
            .try_into()
            .unwrap();
        }""","""        let gated = !self.is_reset && !cmd.is_core_device_reset_cmd();
        if gated {
            let notification = uci::CoreDeviceStatusNtf {
                device_state: DeviceState::DeviceStateError,
            };
            return notification.try_into().unwrap();
        }""")]
R['init-entry']=[(D,"""        let status = if self.sessions.contains_key(&session_id) {
            uci::Status::ErrorSessionDuplicate
        } else if self.sessions.len() >= MAX_SESSION {
            uci::Status::ErrorMaxSessionsExceeded
        } else {
            self.sessions.insert(
                session_id,
                Session::new(session_id, session_type, self.handle, self.tx.clone()),
            );
            // Should not fail
            self.session_mut(session_id).unwrap().init();
            uci::Status::Ok
        };
""","""        let full = self.sessions.len() >= MAX_SESSION;
        let status = match self.sessions.entry(session_id) {
            std::collections::hash_map::Entry::Occupied(_) => uci::Status::ErrorSessionDuplicate,
            std::collections::hash_map::Entry::Vacant(_) if full => {
                uci::Status::ErrorMaxSessionsExceeded
            }
            std::collections::hash_map::Entry::Vacant(entry) => {
                entry
                    .insert(Session::new(
                        session_id,
                        session_type,
                        self.handle,
                        self.tx.clone(),
                    ))
                    .init();
                uci::Status::Ok
            }
        };
"""),(D,"""        let status = match self.sessions.get_mut(&session_id) {
            Some(session) => {
                if session.state == SessionState::SessionStateActive {
                    self.n_active_sessions -= 1;
                    if self.n_active_sessions == 0 {
                        self.set_state(DeviceState::DeviceStateReady);
                    }
                }
                self.sessions.remove(&session_id);
                uci::Status::Ok
            }
            None => uci::Status::ErrorSessionNotExist,
        };""","""        let status = if let Some(session) = self.sessions.remove(&session_id) {
            if session.state == SessionState::SessionStateActive {
                self.n_active_sessions -= 1;
                if self.n_active_sessions == 0 {
                    self.set_state(DeviceState::DeviceStateReady);
                }
            }
            uci::Status::Ok
        } else {
            uci::Status::ErrorSessionNotExist
        };""")]
R['packet-if']=[(D,"""                        let group_id = packet[0] & 0xf;
                        let opcode_id = packet[1] & 0x3f;

                        let status = if GroupId::try_from(group_id).is_ok() {
                            uci::Status::UnknownOid
                        } else {
                            uci::Status::UnknownGid
                        };""","""                        let (group_id, opcode_id) = (packet[0] & 0xf, packet[1] & 0x3f);
                        let status = match GroupId::try_from(group_id) {
                            Ok(_) => uci::Status::UnknownOid,
                            Err(_) => uci::Status::UnknownGid,
                        };""")]
R['write-chunks']=[(L,"""            let mut offset = HEADER_SIZE;
            let mt = parse_message_type(complete_packet[0]);

            while offset < complete_packet.len() {
                let remaining_length = complete_packet.len() - offset;
                let fragment_length = std::cmp::min(
                    remaining_length,
                    if mt == MessageType::Data {
                        MAX_DATA_PACKET_PAYLOAD_SIZE
                    } else {
                        MAX_CTRL_PACKET_PAYLOAD_SIZE
                    },
                );
                let pbf = if fragment_length == remaining_length {""","""            let mt = parse_message_type(complete_packet[0]);
            let max_length = if mt == MessageType::Data {
                MAX_DATA_PACKET_PAYLOAD_SIZE
            } else {
                MAX_CTRL_PACKET_PAYLOAD_SIZE
            };
            let (header, mut payload) = complete_packet.split_at(HEADER_SIZE);

            while !payload.is_empty() {
                let fragment_length = payload.len().min(max_length);
                let (fragment, rest) = payload.split_at(fragment_length);
                payload = rest;
                let pbf = if rest.is_empty() {"""),(L,"packet.extend_from_slice(&complete_packet[0..HEADER_SIZE]);","packet.extend_from_slice(header);"),
(L,"packet.extend_from_slice(&complete_packet[offset..offset + fragment_length]);","packet.extend_from_slice(fragment);"),
(L,"""                    .map_err(|_| anyhow::anyhow!("output packet sink closed"))?;

                offset += fragment_length;""","""                    .map_err(|_| anyhow::anyhow!("output packet sink closed"))?;""")]

# --- HTTP server
H,P='src/bin/http-server/main.rs','src/bin/http-server/position.rs'
R['http-response']=[(H,"""    async fn http_destroy_anchor(""","""    fn response(status: HttpStatusCode) -> Response<Body> {
        Response::builder().status(status).body("".into()).unwrap()
    }

    async fn http_destroy_anchor("""),
(H,"""            return Response::builder()
                .status(HttpStatusCode::NOT_FOUND)
                .body("".into())
                .unwrap();
        };

        self.send_event(Event::DeviceUpdated {""","""            return Self::response(HttpStatusCode::NOT_FOUND);
        };

        self.send_event(Event::DeviceUpdated {"""),
(H,"""            }
        }

        Response::builder()
            .status(HttpStatusCode::OK)
            .body("".into())
            .unwrap()
    }

    async fn http_create""","""            }
        }

        Self::response(HttpStatusCode::OK)
    }

    async fn http_create"""),
(H,"""        Response::builder().status(status).body("".into()).unwrap()
    }

    fn http_get_state""","""        Self::response(status)
    }

    fn http_get_state""")]
R['http-find']=[(H,"""        let mut found_device = None;
        for (_, device) in devices.iter_mut() {
            if device.mac_address == mac_address {
                device.position = position;
                found_device = Some(device.clone());
                break;
            }
        }

        let Some(device) = found_device else {
            return""","""        let Some(device) = devices
            .values_mut()
            .find(|device| device.mac_address == mac_address)
        else {
            return"""),
(H,"""        self.send_event(Event::DeviceUpdated {
            category: device.category,""","""        device.position = position;
        let device = device.clone();

        self.send_event(Event::DeviceUpdated {
            category: device.category,""")]
R['http-neighbor']=[(H,"""        for other in devices.values() {
            if other.mac_address != device.mac_address {
                let local = device
                    .position
                    .compute_range_azimuth_elevation(&other.position);
                let remote = other
                    .position
                    .compute_range_azimuth_elevation(&device.position);

                assert!(local.0 == remote.0);

                self.send_event(Event::NeighborUpdated {
                    source_category: device.category,
                    source_mac_address: device.mac_address,
                    destination_category: other.category,
                    destination_mac_address: other.mac_address,
                    distance: local.0,
                    azimuth: local.1,
                    elevation: local.2,
                });

                self.send_event(Event::NeighborUpdated {
                    source_category: other.category,
                    source_mac_address: other.mac_address,
                    destination_category: device.category,
                    destination_mac_address: device.mac_address,
                    distance: remote.0,
                    azimuth: remote.1,
                    elevation: remote.2,
                });
            }
        }
""","""        for other in devices
            .values()
            .filter(|other| other.mac_address != device.mac_address)
        {
            for (source, destination) in [(&device, other), (other, &device)] {
                self.send_event(Event::neighbor_updated(source, destination));
            }
        }
"""),
(H,"""impl Event {
""","""impl Event {
    fn neighbor_updated(source: &DeviceInformation, destination: &DeviceInformation) -> Event {
        let (distance, azimuth, elevation) = source
            .position
            .compute_range_azimuth_elevation(&destination.position);
        Event::NeighborUpdated {
            source_category: source.category,
            source_mac_address: source.mac_address,
            destination_category: destination.category,
            destination_mac_address: destination.mac_address,
            distance,
            azimuth,
            elevation,
        }
    }

""")]
R['http-neighbor2']=[(H,"""            if other.mac_address != device.mac_address {
                let local = device
                    .position
                    .compute_range_azimuth_elevation(&other.position);
                let remote = other
                    .position
                    .compute_range_azimuth_elevation(&device.position);

                assert!(local.0 == remote.0);

                self.send_event(Event::NeighborUpdated {
                    source_category: device.category,
                    source_mac_address: device.mac_address,
                    destination_category: other.category,
                    destination_mac_address: other.mac_address,
                    distance: local.0,
                    azimuth: local.1,
                    elevation: local.2,
                });

                self.send_event(Event::NeighborUpdated {
                    source_category: other.category,
                    source_mac_address: other.mac_address,
                    destination_category: device.category,
                    destination_mac_address: device.mac_address,
                    distance: remote.0,
                    azimuth: remote.1,
                    elevation: remote.2,
                });
            }
        }
""","""            if other.mac_address == device.mac_address {
                continue;
            }
            self.send_neighbor_updated(&device, other);
            self.send_neighbor_updated(other, &device);
        }
"""),
(H,"""    async fn handle_connection_events(""","""    fn send_neighbor_updated(&self, source: &DeviceInformation, destination: &DeviceInformation) {
        let (distance, azimuth, elevation) = source
            .position
            .compute_range_azimuth_elevation(&destination.position);
        self.send_event(Event::NeighborUpdated {
            source_category: source.category,
            source_mac_address: source.mac_address,
            destination_category: destination.category,
            destination_mac_address: destination.mac_address,
            distance,
            azimuth,
            elevation,
        });
    }

    async fn handle_connection_events(""")]
R['http-route']=[(H,"""    let response = match req
        .uri_mut()
        .path()
        .trim_start_matches('/')
        .split('/')
        .collect::<Vec<_>>()[..]
    {""","""    let path = req.uri().path().trim_start_matches('/');
    let segments: Vec<&str> = path.split('/').collect();
    let response = match segments.as_slice() {"""),
(H,"""        ["init-uci-device", mac_address] => {
            context.http_set_position(mac_address!(mac_address), position!(body))
        }
        ["set-position", mac_address] => {
            context""","""        ["init-uci-device" | "set-position", mac_address] => {
            context""")]
R['http-static']=[(H,"""    let static_file = STATIC_FILES
        .iter()
        .find(|(path, _, _)| req.uri().path() == *path);

    if let Some((_, mime, content)) = static_file {
        return Ok(Response::builder()
            .header("content-type", *mime)
            .body((*content).into())
            .unwrap());
    }
""","""    for (path, mime, content) in STATIC_FILES {
        if req.uri().path() != *path {
            continue;
        }
        return Ok(Response::builder()
            .header("content-type", *mime)
            .body(Body::from(*content))
            .unwrap());
    }
""")]
R['http-estimate']=[(H,"""        let devices = self.devices.lock().ok()?;
        let left_pos = devices.get(left)?.position;
        let right_pos = devices.get(right)?.position;
        let (range, azimuth, elevation) = left_pos.compute_range_azimuth_elevation(&right_pos);
        Some(pica::RangingMeasurement {
            range,
            azimuth,
            elevation,
        })
""","""        let devices = match self.devices.lock() {
            Ok(devices) => devices,
            Err(_) => return None,
        };
        match (devices.get(left), devices.get(right)) {
            (Some(left), Some(right)) => {
                let (range, azimuth, elevation) =
                    left.position.compute_range_azimuth_elevation(&right.position);
                Some(pica::RangingMeasurement {
                    range,
                    azimuth,
                    elevation,
                })
            }
            _ => None,
        }
""")]
R['http-geometry']=[(P,"""fn azimuth(delta: Vec3) -> f32 {
    checked_div(delta.x, delta.z).map_or(
        if delta.x == 0. {
            0.
        } else {
            delta.x.signum() * std::f32::consts::FRAC_PI_2
        },
        f32::atan,
    ) + if delta.z >= 0. {
        0.
    } else {
        delta.x.signum() * std::f32::consts::PI
    }
}
""","""fn azimuth(delta: Vec3) -> f32 {
    let angle = match checked_div(delta.x, delta.z) {
        Some(tan) => tan.atan(),
        None if delta.x == 0. => 0.,
        None => delta.x.signum() * std::f32::consts::FRAC_PI_2,
    };
    if delta.z < 0. {
        angle + delta.x.signum() * std::f32::consts::PI
    } else {
        angle
    }
}
"""),
(P,"""        let distance = delta.length();
        let direction = self.rotation.mul_vec3(delta);

        let azimuth = azimuth(direction).to_degrees().round();
        let elevation = elevation(direction).to_degrees().round();

        assert!((-180. ..=180.).contains(&azimuth));
        assert!((-90. ..=90.).contains(&elevation));

        (
            f32::min(distance, u16::MAX as f32) as u16,""","""        let distance = delta.length().min(u16::MAX as f32);
        let direction = self.rotation.mul_vec3(delta);

        let elevation = elevation(direction).to_degrees().round();
        assert!(elevation >= -90. && elevation <= 90.);

        let azimuth = azimuth(direction).to_degrees().round();
        assert!(azimuth.abs() <= 180.);

        (
            distance as u16,""")]
R['http-atan2']=[(P,"""    checked_div(delta.x, delta.z).map_or(
        if delta.x == 0. {
            0.
        } else {
            delta.x.signum() * std::f32::consts::FRAC_PI_2
        },
        f32::atan,
    ) + if delta.z >= 0. {
        0.
    } else {
        delta.x.signum() * std::f32::consts::PI
    }
""","""    delta.x.atan2(delta.z)
"""),(P,"""        let delta = other.position - self.position;

        let distance = delta.length();
""","""        let delta = other.position - self.position;
        let distance = self.position.distance(other.position);
""")]
R['http-scene']=[(H,"""                    let mut devices = self.devices.lock().unwrap();
                    devices.insert(
                        handle,
                        DeviceInformation {
                            category: Category::Uci,
                            mac_address,
                            position: Default::default(),
                        },
                    );
                    self.send_event(Event::DeviceAdded {
                        category: Category::Uci,
                        mac_address,
                        position: Default::default(),
                    });
""","""                    self.add_device(handle, Category::Uci, mac_address, Position::default());
"""),
(H,"""                    let mut devices = self.devices.lock().unwrap();
                    devices.remove(&handle);
                    self.send_event(Event::DeviceRemoved {
                        category: Category::Uci,
                        mac_address,
                    });
""","""                    self.remove_device(&handle, Category::Uci, mac_address);
"""),
(H,"""                let mut devices = self.devices.lock().unwrap();
                devices.insert(
                    handle,
                    DeviceInformation {
                        position,
                        mac_address,
                        category: Category::Anchor,
                    },
                );
                self.send_event(Event::DeviceAdded {
                    category: Category::Anchor,
                    mac_address,
                    position,
                });
                HttpStatusCode::OK
            }
            Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
            Ok(Err(PicaCommandError::DeviceNotFound(_))) => HttpStatusCode::NOT_FOUND,
            Err(_)""","""                self.add_device(handle, Category::Anchor, mac_address, position);
                HttpStatusCode::OK
            }
            Ok(Err(err)) => Self::error_status(err),
            Err(_)"""),
(H,"""                let mut devices = self.devices.lock().unwrap();
                devices.remove(&handle);
                self.send_event(Event::DeviceRemoved {
                    category: Category::Anchor,
                    mac_address,
                });
                HttpStatusCode::OK
            }
            Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
            Ok(Err(PicaCommandError::DeviceNotFound(_))) => HttpStatusCode::NOT_FOUND,
            Err(_)""","""                self.remove_device(&handle, Category::Anchor, mac_address);
                HttpStatusCode::OK
            }
            Ok(Err(err)) => Self::error_status(err),
            Err(_)"""),
(H,"""    async fn handle_connection_events(""","""    fn error_status(err: PicaCommandError) -> HttpStatusCode {
        match err {
            PicaCommandError::DeviceAlreadyExists(_) => HttpStatusCode::CONFLICT,
            PicaCommandError::DeviceNotFound(_) => HttpStatusCode::NOT_FOUND,
        }
    }

    fn add_device(
        &self,
        handle: pica::Handle,
        category: Category,
        mac_address: MacAddress,
        position: Position,
    ) {
        let device = DeviceInformation {
            category,
            mac_address,
            position,
        };
        self.devices.lock().unwrap().insert(handle, device);
        self.send_event(Event::DeviceAdded {
            category,
            mac_address,
            position,
        });
    }

    fn remove_device(&self, handle: &pica::Handle, category: Category, mac_address: MacAddress) {
        {
            let mut devices = self.devices.lock().unwrap();
            devices.remove(handle);
        }
        self.send_event(Event::DeviceRemoved {
            category,
            mac_address,
        });
    }

    async fn handle_connection_events(""")]
R['http-follow']=[(H,"""        loop {
            match events.recv().await {
                Ok(PicaEvent::Connected {
                    mac_address,
                    handle,
                }) => {""","""        loop {
            let event = match events.recv().await {
                Ok(event) => event,
                Err(broadcast::error::RecvError::Lagged(count)) => {
                    log::warn!("missed {} connection events", count);
                    continue;
                }
                Err(err @ broadcast::error::RecvError::Closed) => return Err(err.into()),
            };
            match event {
                PicaEvent::Connected {
                    mac_address,
                    handle,
                } => {"""),
(H,"""                Ok(PicaEvent::Disconnected {
                    mac_address,
                    handle,
                }) => {""","""                PicaEvent::Disconnected {
                    mac_address,
                    handle,
                } => {"""),
(H,"""                Err(broadcast::error::RecvError::Lagged(count)) => {
                    log::warn!("missed {} connection events", count)
                }
                Err(err) => anyhow::bail!(err),
""","")]
R['http-state']=[(H,"""        let devices = self.devices.lock().unwrap();
        let response = GetStateResponse {
            devices: devices.values().cloned().collect::<Vec<_>>(),
        };
        let body = serde_json::to_string(&response).unwrap();""","""        let mut devices = vec![];
        for device in self.devices.lock().unwrap().values() {
            devices.push(device.clone());
        }
        let body = serde_json::to_string(&GetStateResponse { devices }).unwrap();""")]
R['http-body']=[(H,"""macro_rules! position {
    ($body: ident) => {
        position!($body, false)
    };
    ($body: ident, $mandatory: ident) => {
        match serde_json::from_slice::<PositionBody>(&$body) {
            Ok(body) => Position::new(body.x, body.y, body.z, body.yaw, body.pitch, body.roll),
            Err(err) => {
                if !$mandatory && err.classify() == SerdeErrorCategory::Eof {
                    Position::default()
                } else {
                    let reason = format!("Error while deserializing position: {}", err);
                    log::error!("{}", reason);
                    return Ok(Response::builder().status(406).body(reason.into()).unwrap());
                }
            }
        }
    };
}
""","""fn not_acceptable(reason: String) -> Response<Body> {
    log::error!("{}", reason);
    Response::builder()
        .status(HttpStatusCode::NOT_ACCEPTABLE)
        .body(reason.into())
        .unwrap()
}

fn parse_position(body: &[u8]) -> std::result::Result<Position, Response<Body>> {
    match serde_json::from_slice::<PositionBody>(body) {
        Ok(PositionBody {
            x,
            y,
            z,
            yaw,
            pitch,
            roll,
        }) => Ok(Position::new(x, y, z, yaw, pitch, roll)),
        Err(err) if err.classify() == SerdeErrorCategory::Eof => Ok(Position::default()),
        Err(err) => Err(not_acceptable(format!(
            "Error while deserializing position: {}",
            err
        ))),
    }
}

macro_rules! position {
    ($body: ident) => {
        match parse_position(&$body) {
            Ok(position) => position,
            Err(response) => return Ok(response),
        }
    };
}
""")]

# --- event loops
LOOP="""        loop {
            if let Some(command) = command_rx.recv().await {
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band"""
R['ev-while']=[(L,LOOP,"""        while let Some(command) = command_rx.recv().await {
            self.pica_command(command);
        }
        anyhow::bail!("the command channel is closed")
    }

    // Handle the in-band""")]
R['ev-match']=[(L,LOOP,"""        let mut served = 0usize;
        loop {
            match command_rx.recv().await {
                None => continue,
                Some(command) => {
                    served = served.wrapping_add(1);
                    log::trace!("command {}", served);
                    self.pica_command(command);
                }
            }
        }
    }

    // Handle the in-band""")]
R['ev-batch']=[(L,LOOP,"""        loop {
            let mut pending = vec![];
            pending.extend(command_rx.recv().await);
            while let Ok(command) = command_rx.try_recv() {
                pending.push(command);
            }
            for command in pending {
                self.pica_command(command)
            }
        }
    }

    // Handle the in-band""")]
R['ev-drain']=[(L,LOOP,"""        loop {
            if let Some(command) = command_rx.recv().await {
                self.pica_command(command);
                while let Ok(command) = command_rx.try_recv() {
                    self.pica_command(command);
                }
            }
        }
    }

    // Handle the in-band""")]
R['ev-shared']=[(L,"""    let Some(mut command_rx) = this.lock().unwrap().command_rx.take() else {
        anyhow::bail!("missing pica command receiver");
    };

    loop {
        if let Some(command) = command_rx.recv().await {
            this.lock().unwrap().pica_command(command)
        }
    }
""","""    let mut command_rx = {
        let mut pica = this.lock().unwrap();
        match pica.command_rx.take() {
            Some(command_rx) => command_rx,
            None => anyhow::bail!("missing pica command receiver"),
        }
    };

    loop {
        let Some(command) = command_rx.recv().await else {
            continue;
        };
        let mut pica = this.lock().unwrap();
        pica.pica_command(command);
    }
""")]
R['ev-inner']=[(L,LOOP,"""        loop {
            self.step(&mut command_rx).await
        }
    }

    async fn step(&mut self, command_rx: &mut mpsc::Receiver<PicaCommand>) {
        if let Some(command) = command_rx.recv().await {
            self.pica_command(command)
        }
    }

    // Handle the in-band"""),]

# clients (C27)
I,Y,C,J='static/index.html','static/openapi.yaml','py/pica/console.py','static/src/components/DeviceInfo.js'
HH='src/bin/http-server/main.rs'
R['cl-js-helpers']=[(I,"""    const res = await fetch('/get-state');
    const { devices } = await res.json();
    map.devices = devices.map(device => parse_device(device));
""","""    const { devices } = await get_json('get-state');
    map.devices = devices.map(parse_device);
"""),(I,"""  async function update_state() {
""","""  const API = "/";

  async function get_json(name) {
    const res = await fetch(`${API}${name}`);
    return res.json();
  }

  async function update_state() {
"""),(I,"""    const path = "/set-position/" + mac_address;
    fetch(path, {
      method: "POST",
      headers: {
        "content-type": "application/json",
      },
      body: JSON.stringify({
        x,
        y,
        z,
        yaw,
        pitch,
        roll,
      }),
    });
""","""    post(["set-position", mac_address].join("/"), { x, y, z, yaw, pitch, roll });
"""),(I,"""  map.addEventListener("end-move\"""","""  function post(path, position) {
    return fetch(`/${path}`, {
      method: "POST",
      headers: { "content-type": "application/json" },
      body: JSON.stringify(position),
    });
  }

  map.addEventListener("end-move\"""")]
R['cl-js-listen']=[(I,"""  events.addEventListener("device-added", (event) => {
    const data = JSON.parse(event.data);
    console.log("Device Added", data);
""","""  function listen(name, handler) {
    events.addEventListener(name, (event) => handler(JSON.parse(event.data)));
  }

  listen("device-added", (data) => {
    console.log("Device Added", data);
"""),(I,"""  events.addEventListener("device-removed", (event) => {
    const data = JSON.parse(event.data);
    console.log("Device Removed", data);

    const {
      mac_address,
    } = data;
""","""  listen("device-removed", ({ mac_address }) => {
""")]
R['cl-js-table']=[(I,"""  events.addEventListener("device-added", (event) => {
    const data = JSON.parse(event.data);
    console.log("Device Added", data);

    map.devices = [
      ...map.devices,
      parse_device(data)
    ];
  });
""","""  const handlers = {
    "device-added": (data) => {
      map.devices = [...map.devices, parse_device(data)];
    },
  };
  for (const [name, handler] of Object.entries(handlers)) {
    events.addEventListener(name, (event) => handler(JSON.parse(event.data)));
  }
""")]
R['cl-js-names']=[(I,"""    const {
      mac_address, x, y, z, yaw, pitch, roll,
    } = data;

    const device = map.devices.find(
      (device) => device.mac_address === mac_address
    );

    device.position = { x, y, z };
    device.yaw = yaw;
    device.pitch = pitch;
    device.roll = roll;
""","""    const device = find_device(data.mac_address);

    Object.assign(device, parse_device(data), { neighbors: device.neighbors });
"""),(I,"""  async function update_state() {
""","""  function find_device(address) {
    return map.devices.find((device) => device.mac_address === address);
  }

  async function update_state() {
"""),(I,"""    const {
      mac_address, x, y, z, yaw, pitch, roll,
    } = device;
    return {
      mac_address,
      position: { x, y, z },
      yaw,
      pitch,
      roll,
      neighbors: []
    }
""","""    const { mac_address: mac, yaw, pitch, roll, ...position } = device;
    return {
      mac_address: mac,
      position: { x: position.x, y: device.y, z: position["z"] },
      yaw, pitch, roll,
      neighbors: []
    }
""")]
PYBODY='''            data=json.dumps(
                {
                    "x": int(x),
                    "y": int(y),
                    "z": int(z),
                    "yaw": int(yaw),
                    "pitch": int(pitch),
                    "roll": int(roll),
                }
            ),
        )
        print(f"{r.status_code}: {r.text}")
'''
def pyreq(n): return '''        r = requests.post(
            f"{self.http_address}/%s/{mac_address}",
'''%n+PYBODY
R['cl-py-helpers']=[(C,pyreq('init-uci-device'),'''        self._post("init-uci-device", mac_address, _position(x, y, z, yaw, pitch, roll))
'''),(C,pyreq('create-anchor'),'''        self._post("create-anchor", mac_address, _position(x, y, z, yaw, pitch, roll))
'''),(C,pyreq('set-position'),'''        self._post("set-position", mac_address, _position(x, y, z, yaw, pitch, roll))
'''),(C,'''    def pica_get_state(self''','''    def _post(self, command: str, mac_address: str, body=None):
        url = "/".join([self.http_address, command, mac_address])
        r = requests.post(url, data=json.dumps(body) if body else None)
        print(f"{r.status_code}: {r.text}")

    def pica_get_state(self'''),(C,'''class Device:
''','''def _position(x, y, z, yaw, pitch, roll):
    return {
        "x": int(x),
        "y": int(y),
        "z": int(z),
        "yaw": int(yaw),
        "pitch": int(pitch),
        "roll": int(roll),
    }


class Device:
'''),(C,'''        r = requests.post(f"{self.http_address}/destroy-anchor/{mac_address}")
        print(f"{r.status_code}: {r.text}")
''','''        self._post("destroy-anchor", mac_address)
''')]
R['cl-py-url']=[(C,'''        r = requests.get(f"{self.http_address}/get-state")
''','''        with requests.Session() as session:
            r = session.get(self._url("get-state"))
'''),(C,'''    def pica_get_state(self''','''    def _url(self, *parts):
        return "/".join((self.http_address, *parts))

    def pica_get_state(self'''),(C,'''        r = requests.post(f"{self.http_address}/destroy-anchor/{mac_address}")
''','''        r = requests.delete(self._url("destroy-anchor", mac_address))
''')]
R['cl-py-commands']=[(C,'''        self.host.send_control(uci.SessionStartCmd(session_id=int(session_id)))
''','''        cmd = uci.SessionStartCmd(session_id=int(session_id))
        self.host.send_control(cmd)
'''),(C,'''        self.host.send_control(uci.SessionGetCountCmd())
''','''        self._send(uci.SessionGetCountCmd)
'''),(C,'''        self.host.send_control(
            uci.SessionGetRangingCountCmd(session_id=int(session_id))
        )
''','''        self._send(uci.SessionGetRangingCountCmd, session_id=int(session_id))
'''),(C,'''    def pica_get_state(self''','''    def _send(self, packet, **fields):
        self.host.send_control(packet(**fields))

    def pica_get_state(self'''),(C,'from pica.packets import uci\n','from pica.packets import uci\nfrom pica.packets.uci import SessionType\n'),
  (C,'session_type=uci.SessionType.FIRA_RANGING_AND_IN_BAND_DATA_SESSION','session_type=SessionType.FIRA_RANGING_AND_IN_BAND_DATA_SESSION')]
R['cl-yaml']=[(Y,"""  /get-state:
    get:
""","""  # the state
  "/get-state":
    get:
"""),(Y,"""        mac_address:
            $ref: "#/components/schemas/MacAddress"
        position:
""","""        mac_address: { $ref: "#/components/schemas/MacAddress" }
        position:
""")]
R['cl-rs-serde']=[(HH,"""    NeighborUpdated {
        source_category: Category,
        source_mac_address: MacAddress,
        destination_category: Category,
        destination_mac_address: MacAddress,
""","""    NeighborUpdated {
        source_category: Category,
        #[serde(rename = "source_mac_address")]
        source: MacAddress,
        destination_category: Category,
        #[serde(rename = "destination_mac_address")]
        destination: MacAddress,
"""),(HH,"""                        source_mac_address: mac_address,
                        destination_mac_address: other_mac_address,""","""                        source: mac_address,
                        destination: other_mac_address,""")] if False else [(HH,"""#[derive(Debug, Serialize, Clone)]
struct DeviceInformation {
    category: pica::Category,
    mac_address: MacAddress,
    #[serde(flatten)]
    position: Position,
""","""#[derive(Debug, Serialize, Clone)]
#[serde(rename_all = "snake_case")]
struct DeviceInformation {
    category: pica::Category,
    mac_address: MacAddress,
    #[serde(flatten)]
    position: Position,
"""),(HH,"""#[derive(Deserialize)]
struct PositionBody {
    x: i16,
""","""#[derive(Deserialize)]
struct PositionBody {
    #[serde(alias = "X")]
    x: i16,
""")]
R['cl-rs-struct']=[(HH,"""        #[derive(Serialize)]
        struct GetStateResponse {
            devices: Vec<DeviceInformation>,
        }

        let devices = self.devices.lock().unwrap();
        let response = GetStateResponse {
            devices: devices.values().cloned().collect::<Vec<_>>(),
        };
""","""        #[derive(Serialize)]
        struct GetStateResponse<'a> {
            devices: Vec<&'a DeviceInformation>,
        }

        let devices = self.devices.lock().unwrap();
        let response = GetStateResponse {
            devices: devices.values().collect::<Vec<_>>(),
        };
""")]
R['cl-rs-json']=[(HH,"""        #[derive(Serialize)]
        struct GetStateResponse {
            devices: Vec<DeviceInformation>,
        }

        let devices = self.devices.lock().unwrap();
        let response = GetStateResponse {
            devices: devices.values().cloned().collect::<Vec<_>>(),
        };
        let body = serde_json::to_string(&response).unwrap();
""","""        let devices = self.devices.lock().unwrap();
        let body = serde_json::json!({
            "devices": devices.values().cloned().collect::<Vec<_>>(),
        })
        .to_string();
""")]

# connection, captures
L='src/lib.rs'; D='src/device.rs'; S='src/session.rs'; A='src/app_config.rs'; K='src/packets.rs'; G='src/pcapng.rs'
FRAG="""                let fragment_length = std::cmp::min(
                    remaining_length,
                    if mt == MessageType::Data {
                        MAX_DATA_PACKET_PAYLOAD_SIZE
                    } else {
                        MAX_CTRL_PACKET_PAYLOAD_SIZE
                    },
                );
"""
HDR="""                let mut packet = Vec::with_capacity(HEADER_SIZE + fragment_length);

                packet.extend_from_slice(&complete_packet[0..HEADER_SIZE]);
                const PBF_MASK: u8 = 0x10;
                packet[0] &= !PBF_MASK;
                packet[0] |= (pbf as u8) << 4;

                match mt {
                    MessageType::Data => {
                        packet[2..4].copy_from_slice(&(fragment_length as u16).to_le_bytes())
                    }
                    _ => packet[3] = fragment_length as u8,
                }

                packet.extend_from_slice(&complete_packet[offset..offset + fragment_length]);
"""
R['cn-max']=[(L,"            let mt = parse_message_type(complete_packet[0]);\n","""            let mt = parse_message_type(complete_packet[0]);
            let is_data = mt == MessageType::Data;
            let max_payload_size = if is_data {
                MAX_DATA_PACKET_PAYLOAD_SIZE
            } else {
                MAX_CTRL_PACKET_PAYLOAD_SIZE
            };
"""),(L,FRAG,"                let fragment_length = remaining_length.min(max_payload_size);\n")]
R['cn-segment']=[(L,HDR,"""                let packet = make_segment(
                    &complete_packet[..HEADER_SIZE],
                    mt,
                    pbf,
                    &complete_packet[offset..offset + fragment_length],
                );
"""),(L,"impl Pica {\n    pub fn new","""/// Build one segment of a packet.
fn make_segment(header: &[u8], mt: MessageType, pbf: PacketBoundaryFlag, payload: &[u8]) -> Vec<u8> {
    let mut segment = header.to_vec();
    segment[0] = (segment[0] & !0x10) | ((pbf as u8) << 4);
    if mt == MessageType::Data {
        let [lo, hi] = (payload.len() as u16).to_le_bytes();
        segment[2] = lo;
        segment[3] = hi;
    } else {
        segment[3] = payload.len() as u8;
    }
    segment.extend(payload);
    segment
}

impl Pica {
    pub fn new""")]
R['cn-concat']=[(L,HDR,"""                let mut header = [0u8; HEADER_SIZE];
                header.copy_from_slice(&complete_packet[..HEADER_SIZE]);
                header[0] = header[0] & 0xef | (pbf as u8) << 4;
                if let MessageType::Data = mt {
                    header[2..].copy_from_slice(&(fragment_length as u16).to_le_bytes());
                } else {
                    header[3] = fragment_length as u8;
                }
                let packet = [&header[..], &complete_packet[offset..][..fragment_length]].concat();
""")]
R['cn-end']=[(L,"""                let remaining_length = complete_packet.len() - offset;
"""+FRAG,"""                let max = match mt {
                    MessageType::Data => MAX_DATA_PACKET_PAYLOAD_SIZE,
                    _ => MAX_CTRL_PACKET_PAYLOAD_SIZE,
                };
                let end = usize::min(offset + max, complete_packet.len());
                let fragment_length = end - offset;
"""),(L,"let pbf = if fragment_length == remaining_length {","let pbf = if end == complete_packet.len() {"),(L,"offset..offset + fragment_length]);","offset..end]);"),
  (L,"                offset += fragment_length;\n","                offset = end;\n")]
R['cn-rest']=[(L,"            let mut offset = HEADER_SIZE;\n","            let (header, mut rest) = complete_packet.split_at(HEADER_SIZE);\n"),
  (L,"while offset < complete_packet.len() {\n                let remaining_length = complete_packet.len() - offset;","while !rest.is_empty() {\n                let remaining_length = rest.len();"),
  (L,"packet.extend_from_slice(&complete_packet[0..HEADER_SIZE]);","packet.extend_from_slice(header);"),
  (L,"packet.extend_from_slice(&complete_packet[offset..offset + fragment_length]);","packet.extend_from_slice(&rest[..fragment_length]);"),
  (L,"                offset += fragment_length;\n","                rest = &rest[fragment_length..];\n")]
R['cn-record']=[(L,"""                if let Some(file) = pcapng_file {
                    file.write(&packet, pcapng::Direction::Tx)?;
                }
""","""                record(pcapng_file, &packet, pcapng::Direction::Tx)?;
"""),(L,"""                if let Some(file) = pcapng_file {
                    file.write(&packet, pcapng::Direction::Rx)?;
                }
""","""                record(pcapng_file, &packet, pcapng::Direction::Rx)?;
"""),(L,"impl Pica {\n    pub fn new","""fn record(file: Option<&pcapng::File>, packet: &[u8], direction: pcapng::Direction) -> std::io::Result<()> {
    file.map_or(Ok(()), |file| file.write(packet, direction))
}

impl Pica {
    pub fn new""")]
R['cn-read-acc']=[(L,"            let mut complete_packet: Option<Vec<u8>> = None;\n","            let mut complete_packet: Vec<u8> = Vec::new();\n"),
  (L,"""                match &mut complete_packet {
                    Some(complete_packet) => {
                        complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
                    }
                    None => complete_packet = Some(packet),
                }
""","""                if complete_packet.is_empty() {
                    complete_packet = packet;
                } else {
                    complete_packet.extend_from_slice(&packet[HEADER_SIZE..]);
                }
"""),(L,"complete_packet.unwrap()))","complete_packet))")]
R['cn-read-next']=[(L,"""        loop {
            let mut complete_packet: Option<Vec<u8>> = None;
            loop {
                let packet = uci_stream""","""        let mut pending: Option<Vec<u8>> = None;
        loop {
                let packet = uci_stream"""),(L,"""                match &mut complete_packet {
                    Some(complete_packet) => {
                        complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
                    }
                    None => complete_packet = Some(packet),
                }

                if header.pbf == packets::uci::PacketBoundaryFlag::Complete {
                    break;
                }
            }

            cmd_tx
                .send(PicaCommand::UciPacket(handle, complete_packet.unwrap()))
                .await
                .unwrap()
""","""                let complete_packet = match pending.take() {
                    Some(mut complete_packet) => {
                        complete_packet.extend_from_slice(&packet[HEADER_SIZE..]);
                        complete_packet
                    }
                    None => packet,
                };

                if header.pbf == packets::uci::PacketBoundaryFlag::Complete {
                    cmd_tx
                        .send(PicaCommand::UciPacket(handle, complete_packet))
                        .await
                        .unwrap();
                } else {
                    pending = Some(complete_packet);
                }
""")]
R['cn-read-fn']=[(L,"""                let packet = uci_stream
                    .next()
                    .await
                    .ok_or(anyhow::anyhow!("input packet stream closed"))?;
                if packet.len() < HEADER_SIZE {
                    anyhow::bail!("truncated packet header")
                }
                let header =
                    packets::uci::CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE])?;
""","""                let Some(packet) = uci_stream.next().await else {
                    return Err(anyhow::anyhow!("input packet stream closed"));
                };
                let header = decode_header(&packet)?;
"""),(L,"impl Pica {\n    pub fn new","""fn decode_header(packet: &[u8]) -> anyhow::Result<packets::uci::CommonPacketHeader> {
    anyhow::ensure!(packet.len() >= HEADER_SIZE, "truncated packet header");
    Ok(packets::uci::CommonPacketHeader::decode_full(
        &packet[..COMMON_HEADER_SIZE],
    )?)
}

impl Pica {
    pub fn new""")]
R['cn-task']=[(L,"""            let pcapng_file = if let Some(dir) = pcapng_dir {
                let full_path = dir.join(format!("device-{}.pcapng", handle));
                log::debug!("Recording pcapng to file {}", full_path.as_path().display());
                pcapng::File::create(full_path)
                    .map_err(|err| log::error!("Failed to create pcapng file: {}", err))
                    .ok()
            } else {
                None
            };

            let _ = tokio::try_join!(
                async { Self::read_routine(stream, pica_tx, handle, pcapng_file.as_ref()).await },
                async { Self::write_routine(sink, packet_rx, handle, pcapng_file.as_ref()).await }
            );
""","""            let pcapng_file = pcapng_dir.and_then(|dir| Self::open_capture(&dir, handle));

            let _ = tokio::try_join!(
                Self::read_routine(stream, pica_tx, handle, pcapng_file.as_ref()),
                Self::write_routine(sink, packet_rx, handle, pcapng_file.as_ref())
            );
"""),(L,"    pub fn add_device(","""    fn open_capture(dir: &std::path::Path, handle: Handle) -> Option<pcapng::File> {
        let full_path = dir.join(format!("device-{}.pcapng", handle));
        log::debug!("Recording pcapng to file {}", full_path.as_path().display());
        match pcapng::File::create(full_path) {
            Ok(file) => Some(file),
            Err(err) => {
                log::error!("Failed to create pcapng file: {}", err);
                None
            }
        }
    }

    pub fn add_device(""")]
R['cn-taskfn']=[(L,"""        tokio::task::spawn(async move {
            let pcapng_file = if""","""        tokio::spawn(Self::connection_task(
            stream,
            sink,
            packet_rx,
            pica_tx,
            handle,
            pcapng_dir,
        ));

        Ok(handle)
    }

    async fn connection_task(
        stream: UciStream,
        sink: UciSink,
        packet_rx: mpsc::UnboundedReceiver<UciPacket>,
        pica_tx: mpsc::Sender<PicaCommand>,
        handle: Handle,
        pcapng_dir: Option<PathBuf>,
    ) {
        let disconnect_tx = pica_tx.clone();
            let pcapng_file = if"""),(L,"""                .send(PicaCommand::Disconnect(handle))
                .await
                .unwrap()
        });

        Ok(handle)
    }
""","""                .send(PicaCommand::Disconnect(handle))
                .await
                .unwrap()
    }
"""),(L,"        let disconnect_tx = self.command_tx.clone();\n","")]
R['cn-select']=[(L,"""            let _ = tokio::try_join!(
                async { Self::read_routine(stream, pica_tx, handle, pcapng_file.as_ref()).await },
                async { Self::write_routine(sink, packet_rx, handle, pcapng_file.as_ref()).await }
            );
""","""            tokio::select! {
                _ = Self::read_routine(stream, pica_tx, handle, pcapng_file.as_ref()) => (),
                _ = Self::write_routine(sink, packet_rx, handle, pcapng_file.as_ref()) => (),
            }
""")]
R['cn-socket']=[(K,"""        let mut packet = vec![0; HEADER_SIZE];

        // Read the common packet header.
        socket.read_exact(&mut packet[0..HEADER_SIZE]).await.ok()?;

        let common_packet_header =
            CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE]).ok()?;

        let payload_length = match common_packet_header.mt {
            MessageType::Data => {
                let data_packet_header =
                    DataPacketHeader::decode_full(&packet[0..HEADER_SIZE]).ok()?;
                data_packet_header.payload_length as usize
            }
            _ => {
                let control_packet_header =
                    ControlPacketHeader::decode_full(&packet[0..HEADER_SIZE]).ok()?;
                control_packet_header.payload_length as usize
            }
        };

        // Read the packet payload.
        packet.resize(payload_length + HEADER_SIZE, 0);
        socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;
""","""        let mut header = [0u8; HEADER_SIZE];

        // Read the common packet header.
        socket.read_exact(&mut header).await.ok()?;
        let payload_length = payload_length(&header)?;

        // Read the packet payload.
        let mut packet = vec![0; HEADER_SIZE + payload_length];
        packet[..HEADER_SIZE].copy_from_slice(&header);
        socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;
"""),(K,"    /// Read a single UCI packet","""    fn payload_length(header: &[u8]) -> Option<usize> {
        let common = CommonPacketHeader::decode_full(&header[..COMMON_HEADER_SIZE]).ok()?;
        if common.mt == MessageType::Data {
            let header = DataPacketHeader::decode_full(header).ok()?;
            Some(header.payload_length.into())
        } else {
            let header = ControlPacketHeader::decode_full(header).ok()?;
            Some(header.payload_length.into())
        }
    }

    /// Read a single UCI packet""")]
R['cn-socket2']=[(K,"""        // Read the packet payload.
        packet.resize(payload_length + HEADER_SIZE, 0);
        socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;

        Some((packet, socket))
""","""        // Read the packet payload.
        let mut payload = vec![0; payload_length];
        if let Err(err) = socket.read_exact(&mut payload).await {
            log::debug!("truncated packet: {}", err);
            return None;
        }
        packet.append(&mut payload);

        Some((packet, socket))
"""),(K,"""        socket.write_all(&packet).await?;

        Ok(socket)
""","""        match socket.write_all(packet.as_slice()).await {
            Ok(()) => Ok(socket),
            Err(err) => Err(err.into()),
        }
""")]
PW="""        // Wrap the packet inside an Enhanced Packet Block.
        file.write_all(&u32::to_le_bytes(0x00000006))?; // Block Type
        file.write_all(&u32::to_le_bytes(block_total_length))?;
        file.write_all(&u32::to_le_bytes(0))?; // Interface ID
        file.write_all(&u32::to_le_bytes((timestamp >> 32) as u32))?; // Timestamp (High)
        file.write_all(&u32::to_le_bytes(timestamp as u32))?; // Timestamp (Low)
        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
        file.write_all(packet)?;
        file.write_all(&vec![0; packet_data_padding])?;
        file.write_all(&u32::to_le_bytes(block_total_length))?; // Block Total Length
        Ok(())
"""
R['cn-pcap-buf']=[(G,PW,"""        // Wrap the packet inside an Enhanced Packet Block.
        let mut block = Vec::with_capacity(block_total_length as usize);
        block.extend_from_slice(&6u32.to_le_bytes()); // Block Type
        block.extend_from_slice(&block_total_length.to_le_bytes());
        block.extend_from_slice(&0u32.to_le_bytes()); // Interface ID
        block.extend_from_slice(&((timestamp >> 32) as u32).to_le_bytes());
        block.extend_from_slice(&(timestamp as u32).to_le_bytes());
        block.extend_from_slice(&(packet.len() as u32).to_le_bytes());
        block.extend_from_slice(&(packet.len() as u32).to_le_bytes());
        block.extend_from_slice(packet);
        block.resize(block.len() + packet_data_padding, 0);
        block.extend_from_slice(&block_total_length.to_le_bytes());
        file.write_all(&block)
""")]
R['cn-pcap-helper']=[(G,PW,PW.replace("        Ok(())\n","        file.flush()\n").replace("file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length","write_u32(&mut *file, packet_length)?; // Captured").replace(
   "file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length","write_u32(&mut *file, packet_length)?; // Original")),
   (G,"        let timestamp = self","        let packet_length = packet.len() as u32;\n        let timestamp = self"),
   (G,"impl File {","""fn write_u32(file: &mut impl Write, value: u32) -> std::io::Result<()> {
    file.write_all(&value.to_le_bytes())
}

impl File {""")]
R['cn-pcap-pad']=[(G,"        let packet_data_padding: usize = 4 - packet.len() % 4;\n        let block_total_length: u32 = packet.len() as u32 + packet_data_padding as u32 + 32;\n",
"        let padded_length = packet.len().next_multiple_of(4);\n        let packet_data_padding = padded_length - packet.len();\n        let block_total_length = (padded_length + 32) as u32;\n")]

# --- emulator, second batch
R['em-measure']=[(L,"""        let mut data_transfer = Vec::new();
        let mut measurements = Vec::new();
""","""        let mut data_transfer = Vec::new();
        let mut measurements = Vec::new();
        let estimates = |other: &Handle| {
            Some((
                self.ranging_estimator.estimate(&device.handle, other)?,
                self.ranging_estimator.estimate(other, &device.handle)?,
            ))
        };
"""),(L,"""                let Some(local) = self
                    .ranging_estimator
                    .estimate(&device.handle, &other.handle)
                else {
                    continue;
                };
                let Some(remote) = self
                    .ranging_estimator
                    .estimate(&other.handle, &device.handle)
                else {
                    continue;
                };
                measurements.extend(make_measurement(mac_address, local, remote));
""","""                if let Some((local, remote)) = estimates(&other.handle) {
                    measurements.extend(make_measurement(mac_address, local, remote));
                }
"""),(L,"""                if let (Some(local), Some(remote)) = (
                    self.ranging_estimator
                        .estimate(&device.handle, &peer_device.handle),
                    self.ranging_estimator
                        .estimate(&peer_device.handle, &device.handle),
                ) {
""","""                if let Some((local, remote)) = estimates(&peer_device.handle) {
""")]
R['em-peers']=[(L,"""        for peer_device in self.devices.values() {
            if peer_device.handle == device_handle {
                continue;
            }

            if peer""","""        let others = self
            .devices
            .values()
            .filter(|peer| peer.handle != device_handle);
        for peer_device in others {
            if peer""")]
R['em-split']=[(L,"""        // TODO: Data transfer should be limited in size for
        // each round of ranging
        for peer_device in data_transfer.iter() {
            // An error here means that the peer is disconnecting, ignore it.
            let _ = peer_device.tx.send(
                DataMessageRcv {
                    application_data: session.data().clone().into(),
                    data_sequence_number: 0x01,
                    pbf: PacketBoundaryFlag::Complete,
                    session_handle: session_id,
                    source_address: session.app_config.device_mac_address.unwrap().into(),
                    status: uci::Status::Ok,
                }
                .encode_to_vec()
                .unwrap(),
            );
        }
""","""        // TODO: Data transfer should be limited in size for
        // each round of ranging
        if !data_transfer.is_empty() {
            let message = DataMessageRcv {
                application_data: session.data().clone().into(),
                data_sequence_number: 0x01,
                pbf: PacketBoundaryFlag::Complete,
                session_handle: session_id,
                source_address: session.app_config.device_mac_address.unwrap().into(),
                status: uci::Status::Ok,
            }
            .encode_to_vec()
            .unwrap();
            for peer_device in &data_transfer {
                // An error here means that the peer is disconnecting, ignore it.
                let _ = peer_device.tx.send(message.clone());
            }
        }
""")]
R['em-ntf-late']=[(L,"""            let device = self.get_device_mut(device_handle).unwrap();
            let session = device.session_mut(session_id).unwrap();

            session.sequence_number += 1;
        }

        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();
""","""        }

        // TODO: Clean the data only when all the data is transfered
        let Some(session) = self
            .get_device_mut(device_handle)
            .and_then(|device| device.session_mut(session_id))
        else {
            return;
        };
        if session.is_session_info_ntf_enabled() {
            session.sequence_number += 1;
        }
        session.clear_data();
""")]
R['em-lookup']=[(L,"""        let Some(device) = self.get_device(device_handle) else {
            return;
        };
        let Some(session) = device.session(session_id) else {
            return;
        };
        if session.session_state() != SessionState::SessionStateActive {
            return;
        }
""","""        let Some((device, session)) = self
            .devices
            .get(&device_handle)
            .and_then(|device| Some((device, device.session(session_id)?)))
            .filter(|(_, session)| session.session_state() == SessionState::SessionStateActive)
        else {
            return;
        };
""")]
R['em-category']=[(L,"""        if self.anchors.contains_key(mac_address) {
            Some(Category::Anchor)
        } else if self
            .devices
            .iter()
            .any(|(_, device)| device.mac_address == *mac_address)
        {
            Some(Category::Uci)
        } else {
            None
        }
""","""        match self.anchors.get(mac_address) {
            Some(_) => Some(Category::Anchor),
            None => self
                .devices
                .values()
                .find(|device| &device.mac_address == mac_address)
                .map(|_| Category::Uci),
        }
""")]
R['em-category2']=[(L,"""        let status = if self.get_category(&mac_address).is_some() {
            Err(PicaCommandError::DeviceAlreadyExists(mac_address))
        } else {
            let handle = self.counter;
            self.counter += 1;

            assert!(self
                .anchors
                .insert(
                    mac_address,
                    Anchor {
                        handle,
                        mac_address,
                    },
                )
                .is_none());

            Ok(handle)
        };
""","""        let status = match self.get_category(&mac_address) {
            Some(_) => Err(PicaCommandError::DeviceAlreadyExists(mac_address)),
            None => {
                let handle = self.next_handle();
                let anchor = Anchor {
                    handle,
                    mac_address,
                };
                self.anchors.insert(mac_address, anchor);
                Ok(handle)
            }
        };
"""),(L,"""    fn send_event(&self, event: PicaEvent) {""","""    fn next_handle(&mut self) -> Handle {
        let handle = self.counter;
        self.counter += 1;
        handle
    }

    fn send_event(&self, event: PicaEvent) {""")]
R['em-destroy']=[(L,"""        let status = match self.anchors.remove(&mac_address) {
            None => Err(PicaCommandError::DeviceNotFound(mac_address)),
            Some(anchor) => Ok(anchor.handle),
        };

        rsp_tx.send(status).unwrap_or_else(|err| {
            log::error!("Failed to send destroy-anchor command response: {:?}", err)
        })
""","""        let status = self
            .anchors
            .remove(&mac_address)
            .map(|anchor| anchor.handle)
            .ok_or(PicaCommandError::DeviceNotFound(mac_address));

        if let Err(err) = rsp_tx.send(status) {
            log::error!("Failed to send destroy-anchor command response: {:?}", err);
        }
""")]
R['em-command']=[(L,"""            Disconnect(device_handle) => self.disconnect(device_handle),
""","""            Disconnect(device_handle) => {
                if let Some(device) = self.devices.remove(&device_handle) {
                    let event = PicaEvent::Disconnected {
                        handle: device_handle,
                        mac_address: device.mac_address,
                    };
                    let _ = self.event_tx.send(event);
                }
            }
"""),(L,"""    fn disconnect(&mut self, device_handle: usize) {
        log::debug!("[{}] Disconnecting device", device_handle);

        if let Some(device) = self.devices.get(&device_handle) {
            self.send_event(PicaEvent::Disconnected {
                handle: device_handle,
                mac_address: device.mac_address,
            });
            self.devices.remove(&device_handle);
        }
    }

""","")]
R['em-instop']=[(L,"""        for device in self.devices.values_mut() {
            let Some(session) = device.session_mut(session_id) else {
                continue;
            };

            if session.app_config.device_mac_address != Some(*mac_address) {
                continue;
            }

            if session.session_state() == SessionState::SessionStateActive {
                session.stop_ranging_task();
                session.set_state(
                    SessionState::SessionStateIdle,
                    ReasonCode::SessionStoppedDueToInbandSignal,
                );
                device.n_active_sessions = device.n_active_sessions.saturating_sub(1);
                if device.n_active_sessions == 0 {
                    device.set_state(DeviceState::DeviceStateReady);
                }
            } else {
                log::warn!("stop_controlee_ranging: session is not active !");
            }
        }
""","""        self.devices
            .values_mut()
            .for_each(|device| device.stop_in_band(mac_address, session_id));
"""),(D,"""    // Send a response or notification to the Host.
    fn send_raw_control(""","""    pub fn stop_in_band(&mut self, mac_address: &MacAddress, session_id: u32) {
        let Some(session) = self.sessions.get_mut(&session_id) else {
            return;
        };
        match session.app_config.device_mac_address {
            Some(address) if address == *mac_address => (),
            _ => return,
        }
        if session.state != SessionState::SessionStateActive {
            log::warn!("stop_controlee_ranging: session is not active !");
            return;
        }
        session.stop_ranging_task();
        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::SessionStoppedDueToInbandSignal,
        );
        self.session_stopped();
    }

    fn session_stopped(&mut self) {
        self.n_active_sessions -= 1;
        if self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }
    }

    // Send a response or notification to the Host.
    fn send_raw_control(""")]
R['em-run']=[(L,"""            if let Some(command) = command_rx.recv().await {
                self.pica_command(command)
            }
        }
    }
""","""            match command_rx.recv().await {
                Some(command) => self.pica_command(command),
                None => continue,
            }
        }
    }
""")]
R['em-uci-packet']=[(L,"""        match self.get_device_mut(device_handle) {
            Some(device) => device.receive_packet(packet),
            None => log::error!("Device {} not found", device_handle),
        }
""","""        let Some(device) = self.devices.get_mut(&device_handle) else {
            log::error!("Device {} not found", device_handle);
            return;
        };
        device.receive_packet(packet)
""")]
R['em-reset']=[(D,"""        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        self.is_reset = true;
        self.init();
""","""        let mut device = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        device.is_reset = true;
        device.set_state(DeviceState::DeviceStateReady);
        *self = device;
""")]
R['em-can']=[(D,"""        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session
                        .app_config
                        .is_compatible_for_ranging(&peer_session.app_config)
            }
            None => false,
        }
""","""        self.session(session_id).is_some_and(|session| {
            session.session_state() == SessionState::SessionStateActive
                && session
                    .app_config
                    .is_compatible_for_ranging(&peer_session.app_config)
        })
"""),(D,"""        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session.session_type() == SessionType::FiraRangingAndInBandDataSession
                    && session.app_config.can_start_data_transfer()
            }
            None => false,
        }
""","""        let Some(session) = self.active_data_session(session_id) else {
            return false;
        };
        session.app_config.can_start_data_transfer()
"""),(D,"""        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session.session_type() == SessionType::FiraRangingAndInBandDataSession
                    && session.app_config.can_receive_data_transfer()
            }
            None => false,
        }
    }
""","""        self.active_data_session(session_id)
            .map(|session| session.app_config.can_receive_data_transfer())
            .unwrap_or(false)
    }

    fn active_data_session(&self, session_id: u32) -> Option<&Session> {
        self.session(session_id).filter(|session| {
            session.session_type == SessionType::FiraRangingAndInBandDataSession
                && session.state == SessionState::SessionStateActive
        })
    }
""")]
R['em-setstate']=[(D,"""        // No transition: ignore
        if device_state == self.state {
            return;
        }

        // Send status notification
        self.state = device_state;
        let tx = self.tx.clone();
        tokio::spawn(async move {
            time::sleep(Duration::from_millis(5)).await;
            // An error here means that the host is disconnected, ignore it.
            let _ = tx.send(
                CoreDeviceStatusNtf { device_state }
                    .encode_to_vec()
                    .unwrap(),
            );
        });
""","""        let previous = std::mem::replace(&mut self.state, device_state);
        if previous != device_state {
            let packet = CoreDeviceStatusNtf { device_state }
                .encode_to_vec()
                .unwrap();
            notify(self.tx.clone(), packet);
        }
"""),(D,"impl Device {\n    pub fn new(","""fn notify(tx: mpsc::UnboundedSender<UciPacket>, packet: UciPacket) {
    tokio::spawn(async move {
        time::sleep(Duration::from_millis(5)).await;
        // An error here means that the host is disconnected, ignore it.
        let _ = tx.send(packet);
    });
}

impl Device {
    pub fn new(""")]
R['em-init-entry']=[(D,"""        let status = if self.sessions.contains_key(&session_id) {
            uci::Status::ErrorSessionDuplicate
        } else if self.sessions.len() >= MAX_SESSION {
            uci::Status::ErrorMaxSessionsExceeded
        } else {
            self.sessions.insert(
                session_id,
                Session::new(session_id, session_type, self.handle, self.tx.clone()),
            );
            // Should not fail
            self.session_mut(session_id).unwrap().init();
            uci::Status::Ok
        };
""","""        let n_sessions = self.sessions.len();
        let status = match self.sessions.entry(session_id) {
            std::collections::hash_map::Entry::Occupied(_) => uci::Status::ErrorSessionDuplicate,
            std::collections::hash_map::Entry::Vacant(_) if n_sessions >= MAX_SESSION => {
                uci::Status::ErrorMaxSessionsExceeded
            }
            std::collections::hash_map::Entry::Vacant(entry) => {
                entry
                    .insert(Session::new(
                        session_id,
                        session_type,
                        self.handle,
                        self.tx.clone(),
                    ))
                    .init();
                uci::Status::Ok
            }
        };
""")]
R['em-init-local']=[(D,"""            self.sessions.insert(
                session_id,
                Session::new(session_id, session_type, self.handle, self.tx.clone()),
            );
            // Should not fail
            self.session_mut(session_id).unwrap().init();
            uci::Status::Ok
""","""            let mut session =
                Session::new(session_id, session_type, self.handle, self.tx.clone());
            session.init();
            self.sessions.insert(session_id, session);
            uci::Status::Ok
""")]
R['em-deinit']=[(D,"""        let status = match self.sessions.get_mut(&session_id) {
            Some(session) => {
                if session.state == SessionState::SessionStateActive {
                    self.n_active_sessions -= 1;
                    if self.n_active_sessions == 0 {
                        self.set_state(DeviceState::DeviceStateReady);
                    }
                }
                self.sessions.remove(&session_id);
                uci::Status::Ok
            }
            None => uci::Status::ErrorSessionNotExist,
        };
        SessionDeinitRsp { status }
""","""        let Some(session) = self.sessions.remove(&session_id) else {
            return SessionDeinitRsp {
                status: uci::Status::ErrorSessionNotExist,
            };
        };
        if session.state == SessionState::SessionStateActive {
            self.n_active_sessions -= 1;
            if self.n_active_sessions == 0 {
                self.set_state(DeviceState::DeviceStateReady);
            }
        }
        SessionDeinitRsp {
            status: uci::Status::Ok,
        }
""")]
R['em-getconfig']=[(D,"""        let mut valid_parameters = vec![];
        let mut invalid_parameters = vec![];
        for id in cmd.parameter_ids {
            match id {
                ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                    id,
                    value: vec![self.state.into()],
                }),
                ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                    id,
                    value: vec![self.config.low_power_mode.into()],
                }),
                ConfigParameterId::Rfu(_) => {
                    invalid_parameters.push(ConfigParameter { id, value: vec![] })
                }
            }
        }

        if invalid_parameters""","""        let mut valid_parameters = vec![];
        let mut invalid_parameters = vec![];
        for id in cmd.parameter_ids.iter().copied() {
            let value: Option<u8> = match id {
                ConfigParameterId::DeviceState => Some(self.state.into()),
                ConfigParameterId::LowPowerMode => Some(self.config.low_power_mode as u8),
                ConfigParameterId::Rfu(_) => None,
            };
            match value {
                Some(value) => valid_parameters.push(ConfigParameter {
                    id,
                    value: vec![value],
                }),
                None => invalid_parameters.push(ConfigParameter { id, value: vec![] }),
            }
        }

        if invalid_parameters""")]
R['em-setconfig']=[(D,"""        for parameter in cmd.parameters {
            match parameter.id {
                uci::ConfigParameterId::DeviceState => {
                    invalid_parameters.push(uci::ConfigParameterStatus {
                        id: parameter.id,
                        status: uci::Status::ReadOnly,
                    })
                }
                uci::ConfigParameterId::LowPowerMode => {
                    self.config.low_power_mode = parameter.value.first().copied().unwrap_or(1) != 0;
                }
                uci::ConfigParameterId::Rfu(id) => {
                    log::warn!("unknown config parameter id 0x{:02x}", *id);
                    invalid_parameters.push(uci::ConfigParameterStatus {
                        id: parameter.id,
                        status: uci::Status::InvalidParam,
                    })
                }
            }
        }
""","""        for parameter in &cmd.parameters {
            let status = match parameter.id {
                uci::ConfigParameterId::DeviceState => uci::Status::ReadOnly,
                uci::ConfigParameterId::LowPowerMode => {
                    self.config.low_power_mode = !matches!(parameter.value.first(), Some(0));
                    continue;
                }
                uci::ConfigParameterId::Rfu(_) => uci::Status::InvalidParam,
            };
            invalid_parameters.push(uci::ConfigParameterStatus {
                id: parameter.id,
                status,
            });
        }
""")]
R['em-appcfg-types']=[(D,"""        if session.session_type != SessionType::FiraRangingSession
            && session.session_type != SessionType::FiraRangingAndInBandDataSession
        {
            return SessionSetAppConfigRsp {
                cfg_status: Vec::new(),
                status: uci::Status::Rejected,
            };
        }

        if session.state == SessionState::SessionStateActive {
            const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
            if cmd
                .tlvs
                .iter()
                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))
            {
                return SessionSetAppConfigRsp {
                    status: uci::Status::ErrorSessionActive,
                    cfg_status: vec![],
                };
            }
        }
""","""        let rejection = match (session.session_type, session.state) {
            (
                SessionType::FiraRangingSession | SessionType::FiraRangingAndInBandDataSession,
                SessionState::SessionStateActive,
            ) if cmd
                .tlvs
                .iter()
                .any(|cfg| cfg.cfg_id == AppConfigTlvType::AoaResultReq) =>
            {
                Some(uci::Status::ErrorSessionActive)
            }
            (SessionType::FiraRangingSession | SessionType::FiraRangingAndInBandDataSession, _) => {
                None
            }
            _ => Some(uci::Status::Rejected),
        };
        if let Some(status) = rejection {
            return SessionSetAppConfigRsp {
                cfg_status: Vec::new(),
                status,
            };
        }
""")]
R['em-appcfg-loop']=[(D,"""            for cfg in cmd.tlvs {
                match app_config.set(cfg.cfg_id, &cfg.v) {
                    Ok(_) => (),
                    Err(_) => invalid_parameters.push(AppConfigStatus {
                        cfg_id: cfg.cfg_id,
                        status: uci::Status::InvalidParam,
                    }),
                }
            }
""","""            for AppConfigTlv { cfg_id, v } in cmd.tlvs {
                if app_config.set(cfg_id, &v).is_err() {
                    let status = uci::Status::InvalidParam;
                    invalid_parameters.push(AppConfigStatus { cfg_id, status });
                }
            }
"""),(D,"""            if app_config.device_role.is_none()
                || app_config.multi_node_mode.is_none()
                || app_config.ranging_round_usage.is_none()
                || app_config.device_mac_address.is_none()
                || app_config.schedule_mode.is_none()
            {
""","""            let complete = app_config.device_role.is_some()
                && app_config.multi_node_mode.is_some()
                && app_config.ranging_round_usage.is_some()
                && app_config.device_mac_address.is_some()
                && app_config.schedule_mode.is_some();
            if !complete {
""")]
R['em-getapp']=[(D,"""            for id in cmd.app_cfg {
                match session.app_config.get(id) {
                    Ok(value) => valid_parameters.push(AppConfigTlv {
                        cfg_id: id,
                        v: value,
                    }),
                    Err(_) => invalid_parameters.push(AppConfigTlv {
                        cfg_id: id,
                        v: vec![],
                    }),
                }
            }

            if invalid_parameters.is_empty() {
                (uci::Status::Ok, valid_parameters)
            } else {
                (uci::Status::Failed, Vec::new())
            }
""","""            let mut failed = false;
            for cfg_id in cmd.app_cfg {
                if let Ok(v) = session.app_config.get(cfg_id) {
                    valid_parameters.push(AppConfigTlv { cfg_id, v });
                } else {
                    failed = true;
                }
            }

            if failed {
                (uci::Status::Failed, Vec::new())
            } else {
                (uci::Status::Ok, valid_parameters)
            }
"""),(D,"""            let mut valid_parameters = vec![];
            let mut invalid_parameters = vec![];
            let mut failed""","""            let mut valid_parameters = vec![];
            let mut failed""")]
R['em-mc-decode']=[(D,"""            UpdateMulticastListAction::AddControleeWithShortSubSessionKey => {
                if let Ok(packet) =
                    SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::decode_full(
                        &cmd.payload,
                    )
                {
                    packet
                        .controlees
                        .iter()
                        .map(|controlee| controlee.into())
                        .collect()
                } else {
                    return SessionUpdateControllerMulticastListRsp {
                        status: uci::Status::SyntaxError,
                        controlee_status: vec![],
                    };
                }
            }
""","""            UpdateMulticastListAction::AddControleeWithShortSubSessionKey => {
                match SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::decode_full(
                    &cmd.payload,
                ) {
                    Ok(packet) => packet.controlees.iter().map(Controlee::from).collect(),
                    Err(_) => {
                        return SessionUpdateControllerMulticastListRsp {
                            status: uci::Status::SyntaxError,
                            controlee_status: vec![],
                        }
                    }
                }
            }
""")]
R['em-mc-addr']=[(D,"""                        controlee_status_ntf.push(ControleeStatus {
                            mac_address: match address {
                                MacAddress::Short(addr) => addr,
                                MacAddress::Extended(_) => {
                                    panic!("Extended address is not supported!")
                                }
                            },
                            status: update_status,
                        });
                    }
                    controlee_status_rsp.push(ControleeStatus {
                        mac_address: match address {
                            MacAddress::Short(addr) => addr,
                            MacAddress::Extended(_) => panic!("Extended address is not supported!"),
                        },
                        status: update_status,
                    });
""","""                        controlee_status_ntf.push(controlee_status(&address, update_status));
                    }
                    controlee_status_rsp.push(controlee_status(&address, update_status));
"""),(D,"""impl From<&uci::Controlee> for Controlee {""","""fn controlee_status(address: &MacAddress, status: MulticastUpdateStatus) -> ControleeStatus {
    let MacAddress::Short(mac_address) = *address else {
        panic!("Extended address is not supported!")
    };
    ControleeStatus {
        mac_address,
        status,
    }
}

impl From<&uci::Controlee> for Controlee {""")]
R['em-mc-remove']=[(D,"""                    if !dst_addresses.contains(&address) {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
                        dst_addresses.retain(|value| *value != address);
""","""                    let previous_len = dst_addresses.len();
                    dst_addresses.retain(|value| *value != address);
                    if dst_addresses.len() == previous_len {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
""")]
R['em-mc-position']=[(D,"""                    if !dst_addresses.contains(&address) {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
                        dst_addresses.retain(|value| *value != address);
""","""                    if !dst_addresses.iter().any(|value| *value == address) {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
                        dst_addresses = dst_addresses
                            .iter()
                            .copied()
                            .filter(|value| *value != address)
                            .collect();
""")]
R['em-mc-nested']=[(D,"""                        if !dst_addresses.contains(&controlee.short_address) {
                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                status = uci::Status::ErrorMulticastListFull;
                                update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                            } else {
                                dst_addresses.push(controlee.short_address);
                            };
                        } else {
                            status = uci::Status::Failed;
                            update_status = MulticastUpdateStatus::ErrorAddressAlreadyPresent;
                        }
""","""                        let present = dst_addresses.contains(&controlee.short_address);
                        match (present, dst_addresses.len() < MAX_NUMBER_OF_CONTROLEES) {
                            (true, _) => {
                                status = uci::Status::Failed;
                                update_status = MulticastUpdateStatus::ErrorAddressAlreadyPresent;
                            }
                            (false, true) => dst_addresses.push(controlee.short_address),
                            (false, false) => {
                                status = uci::Status::ErrorMulticastListFull;
                                update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                            }
                        }
""")]
R['em-start-task']=[(D,"""        let tx = self.pica_tx.clone();
        let handle = self.handle;
        session.ranging_task = Some(tokio::spawn(async move {
            loop {
                time::sleep(ranging_interval).await;
                tx.send(PicaCommand::Ranging(handle, session_id))
                    .await
                    .unwrap();
            }
        }));
""","""        session.ranging_task = Some(tokio::spawn(ranging_task(
            self.pica_tx.clone(),
            self.handle,
            session_id,
            ranging_interval,
        )));
"""),(D,"impl Device {\n    pub fn new(","""async fn ranging_task(
    tx: mpsc::Sender<PicaCommand>,
    handle: usize,
    session_id: u32,
    interval: Duration,
) {
    loop {
        time::sleep(interval).await;
        tx.send(PicaCommand::Ranging(handle, session_id))
            .await
            .unwrap();
    }
}

impl Device {
    pub fn new(""")]
R['em-start-send']=[(D,"""            loop {
                time::sleep(ranging_interval).await;
                tx.send(PicaCommand::Ranging(handle, session_id))
                    .await
                    .unwrap();
            }
""","""            loop {
                time::sleep(ranging_interval).await;
                let command = PicaCommand::Ranging(handle, session_id);
                if tx.send(command).await.is_err() {
                    break;
                }
            }
""")]
R['em-stop-take']=[(S,"""        if let Some(handle) = &self.ranging_task {
            handle.abort();
            self.ranging_task = None;
        }
""","""        if let Some(handle) = self.ranging_task.take() {
            handle.abort();
        }
""")]
R['em-data-snd']=[(S,"""        if self.session_type != SessionType::FiraRangingAndInBandDataSession {
            return SessionDataTransferStatusNtf {
                session_token,
                status: DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported,
                tx_count: 1, // TODO: support for retries?
                uci_sequence_number,
            }
            .try_into()
            .unwrap();
        }

        assert_eq!(self.id, session_token);

        // The buffer is delivered in a single DATA_MESSAGE_RCV packet, which
        // limits its size.
        if self.data.len() + data.application_data.len() > u16::MAX as usize {
            return SessionDataTransferStatusNtf {
                session_token,
                status: DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable,
                tx_count: 1, // TODO: support for retries?
                uci_sequence_number,
            }
            .try_into()
            .unwrap();
        }
""","""        let error = |status| {
            SessionDataTransferStatusNtf {
                session_token,
                status,
                tx_count: 1, // TODO: support for retries?
                uci_sequence_number,
            }
            .try_into()
            .unwrap()
        };

        if self.session_type != SessionType::FiraRangingAndInBandDataSession {
            return error(DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported);
        }

        // The buffer is delivered in a single DATA_MESSAGE_RCV packet, which
        // limits its size.
        let available = u16::MAX as usize - self.data.len();
        if data.application_data.len() > available {
            return error(DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable);
        }
""")]
R['em-recv-split']=[(D,"""                        let response = self.receive_command(cmd);
                        self.send_control(response)
""","""                        let response = self.receive_command(cmd).encode_to_vec().unwrap();
                        let _ = self.tx.send(response);
"""),(D,"""                        let status = if GroupId::try_from(group_id).is_ok() {
                            uci::Status::UnknownOid
                        } else {
                            uci::Status::UnknownGid
                        };
                        // The PDL generated code cannot be used to generate
                        // responses with invalid group identifiers.
                        let response = vec![
                            (u8::from(MessageType::Response) << 5) | group_id,
                            opcode_id,
                            0,
                            1,
                            status.into(),
                        ];
                        self.send_raw_control(response)
""","""                        let status = match GroupId::try_from(group_id) {
                            Ok(_) => uci::Status::UnknownOid,
                            Err(_) => uci::Status::UnknownGid,
                        };
                        // The PDL generated code cannot be used to generate
                        // responses with invalid group identifiers.
                        let mut response = Vec::with_capacity(HEADER_SIZE + 1);
                        response.push((u8::from(MessageType::Response) << 5) + group_id);
                        response.extend_from_slice(&[opcode_id, 0, 1]);
                        response.push(u8::from(status));
                        self.send_raw_control(response)
""")]
R['em-recv-order']=[(D,"""        if packet.len() < HEADER_SIZE {
            log::error!("received truncated packet of length {}", packet.len());
            return;
        }

        let mt = parse_message_type(packet[0]);
        match mt {
""","""        let mt = match packet.first() {
            Some(byte) if packet.len() >= HEADER_SIZE => parse_message_type(*byte),
            _ => {
                log::error!("received truncated packet of length {}", packet.len());
                return;
            }
        };
        match mt {
""")]
R['em-data-dev']=[(D,"""                let session_token = data_msg_snd.session_handle;
                Some(if let Some(session) = self.session_mut(session_token) {
                    session.data_message_snd(data_msg_snd)
                } else {
                    SessionDataTransferStatusNtf {
                        session_token,
                        status: DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected,
                        tx_count: 1, // TODO: support for retries?
                        uci_sequence_number: 0,
                    }
                    .try_into()
                    .unwrap()
                })
""","""                let session_token = data_msg_snd.session_handle;
                match self.sessions.get_mut(&session_token) {
                    Some(session) => Some(session.data_message_snd(data_msg_snd)),
                    None => SessionDataTransferStatusNtf {
                        session_token,
                        status: DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected,
                        tx_count: 1, // TODO: support for retries?
                        uci_sequence_number: 0,
                    }
                    .try_into()
                    .ok(),
                }
""")]
R['em-count-state']=[(D,"""        let Some(session) = self.sessions.get(&session_id) else {
            return SessionGetRangingCountRsp {
                status: uci::Status::ErrorSessionNotExist,
                count: 0,
            };
        };

        SessionGetRangingCountRsp {
            status: uci::Status::Ok,
            count: session.sequence_number,
        }
""","""        let (status, count) = self
            .session(session_id)
            .map_or((uci::Status::ErrorSessionNotExist, 0), |session| {
                (uci::Status::Ok, session.sequence_number)
            });
        SessionGetRangingCountRsp { status, count }
""")]
R['em-stop-match']=[(D,"""        if session.state != SessionState::SessionStateActive {
            return SessionStopRsp {
                status: uci::Status::ErrorSessionActive,
            };
        }

        session.stop_ranging_task();
        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );

        self.n_active_sessions -= 1;
        if self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }

        SessionStopRsp {
            status: uci::Status::Ok,
        }
""","""        let status = match session.state {
            SessionState::SessionStateActive => {
                session.set_state(
                    SessionState::SessionStateIdle,
                    ReasonCode::StateChangeWithSessionManagementCommands,
                );
                session.stop_ranging_task();
                self.n_active_sessions -= 1;
                if self.n_active_sessions < 1 {
                    self.set_state(DeviceState::DeviceStateReady);
                }
                uci::Status::Ok
            }
            _ => uci::Status::ErrorSessionActive,
        };

        SessionStopRsp { status }
""")]

# --- parameters and addresses
ACF,MAF='src/app_config.rs','src/mac_address.rs'
R['ac-chunks-exact']=[(ACF,"""                    .chunks(mac_address_size)
                    .map(""","""                    .chunks_exact(mac_address_size)
                    .map(""")]
R['ac-dst-match']=[(ACF,"""                self.dst_mac_address = value
                    .chunks(mac_address_size)
                    .map(|value| match self.mac_address_mode {
                        uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into().unwrap()),
                        uci::MacAddressMode::Mode1 => unimplemented!(),
                        uci::MacAddressMode::Mode2 => {
                            MacAddress::Extended(value.try_into().unwrap())
                        }
                    })
                    .collect();
""","""                let chunks = value.chunks(mac_address_size);
                self.dst_mac_address = if mac_address_size == 2 {
                    chunks
                        .map(|value| MacAddress::Short(value.try_into().unwrap()))
                        .collect()
                } else {
                    chunks
                        .map(|value| MacAddress::Extended(value.try_into().unwrap()))
                        .collect()
                };
""")]
R['ac-dst-push']=[(ACF,"""                self.dst_mac_address = value
                    .chunks(mac_address_size)
                    .map(|value| match self.mac_address_mode {
                        uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into().unwrap()),
                        uci::MacAddressMode::Mode1 => unimplemented!(),
                        uci::MacAddressMode::Mode2 => {
                            MacAddress::Extended(value.try_into().unwrap())
                        }
                    })
                    .collect();
""","""                let mut addresses = Vec::with_capacity(self.number_of_controlees as usize);
                for address in value.chunks(mac_address_size) {
                    addresses.push(match self.mac_address_mode {
                        uci::MacAddressMode::Mode0 => MacAddress::Short(address.try_into()?),
                        _ => MacAddress::Extended(address.try_into()?),
                    });
                }
                self.dst_mac_address = addresses;
""")]
R['ac-parse']=[(ACF,"""            T::try_from(u8::from_le_bytes(value.try_into()?)).map_err(anyhow::Error::msg)
""","""            T::try_from(try_parse_u8(value)?).map_err(anyhow::Error::msg)
"""),(ACF,"""            Ok(u8::from_le_bytes(value.try_into()?))
""","""            match value {
                [byte] => Ok(*byte),
                _ => anyhow::bail!("invalid length {}", value.len()),
            }
"""),(ACF,"""            Ok(u16::from_le_bytes(value.try_into()?))
""","""            if value.len() != 2 {
                anyhow::bail!("invalid length {}", value.len())
            }
            Ok(u16::from(value[0]) | u16::from(value[1]) << 8)
""")]
R['ac-aoa']=[(ACF,"""                if value.len() != 8 {
                    log::error!(
                        "invalid aoa_bound_config len: expected 8, got {}",
                        value.len()
                    );
                    anyhow::bail!("invalid aoa_bound_config len")
                }
                self.aoa_bound_config = [
                    u16::from_le_bytes([value[0], value[1]]),
                    u16::from_le_bytes([value[2], value[3]]),
                    u16::from_le_bytes([value[4], value[5]]),
                    u16::from_le_bytes([value[6], value[7]]),
                ]
""","""                let value: [u8; 8] = value.try_into()?;
                for (bound, bytes) in self.aoa_bound_config.iter_mut().zip(value.chunks(2)) {
                    *bound = u16::from_le_bytes([bytes[0], bytes[1]]);
                }
""")]
R['ac-initiation']=[(ACF,"""                self.uwb_initiation_time = match value.len() {
                    4 => try_parse_u32(value)? as u64,
                    _ => try_parse_u64(value)?,
                }
""","""                self.uwb_initiation_time = if let Ok(time) = try_parse_u32(value) {
                    u64::from(time)
                } else {
                    try_parse_u64(value)?
                }
""")]
R['ac-subkey']=[(ACF,"""                self.sub_session_key = match value.len() {
                    16 => SubSessionKey::Short(value.try_into().unwrap()),
                    32 => SubSessionKey::Extended(value.try_into().unwrap()),
                    _ => anyhow::bail!("invalid sub-session key size {}", value.len()),
                }
""","""                let key = value
                    .try_into()
                    .map(SubSessionKey::Short)
                    .or_else(|_| value.try_into().map(SubSessionKey::Extended));
                let Ok(key) = key else {
                    anyhow::bail!("invalid sub-session key size {}", value.len())
                };
                self.sub_session_key = key;
""")]
R['ac-get-dst']=[(ACF,"""            uci::AppConfigTlvType::DstMacAddress => Ok(self
                .dst_mac_address
                .iter()
                .flat_map(Vec::<u8>::from)
                .collect()),
""","""            uci::AppConfigTlvType::DstMacAddress => {
                let mut value = vec![];
                for address in &self.dst_mac_address {
                    match address {
                        MacAddress::Short(address) => value.extend_from_slice(address),
                        MacAddress::Extended(address) => value.extend_from_slice(address),
                    }
                }
                Ok(value)
            }
""")]
R['ac-get-opt']=[(ACF,"""            uci::AppConfigTlvType::DeviceType => Ok(vec![self
                .device_type
                .ok_or(anyhow::anyhow!("optional app config not set"))?
                .into()]),
            uci::AppConfigTlvType::RangingRoundUsage => Ok(vec![self
                .ranging_round_usage
                .ok_or(anyhow::anyhow!("optional app config not set"))?
                .into()]),
""","""            uci::AppConfigTlvType::DeviceType => optional(self.device_type),
            uci::AppConfigTlvType::RangingRoundUsage => optional(self.ranging_round_usage),
"""),(ACF,"""    pub fn get(&self, id: uci::AppConfigTlvType) -> anyhow::Result<Vec<u8>> {
""","""    pub fn get(&self, id: uci::AppConfigTlvType) -> anyhow::Result<Vec<u8>> {
        fn optional<T: Into<u8>>(value: Option<T>) -> anyhow::Result<Vec<u8>> {
            match value {
                Some(value) => Ok(vec![value.into()]),
                None => anyhow::bail!("optional app config not set"),
            }
        }

""")]
R['ac-get-aoa']=[(ACF,"""            uci::AppConfigTlvType::AoaBoundConfig => Ok(self
                .aoa_bound_config
                .iter()
                .copied()
                .flat_map(u16::to_le_bytes)
                .collect()),
""","""            uci::AppConfigTlvType::AoaBoundConfig => {
                let [a, b, c, d] = self.aoa_bound_config.map(u16::to_le_bytes);
                Ok([a, b, c, d].concat())
            }
""")]
R['ac-compat']=[(ACF,"""        self.device_role != peer_config.device_role
            && self.device_type != peer_config.device_type
            && peer_config
                .dst_mac_address
                .contains(&self.device_mac_address.unwrap())
            && self
                .dst_mac_address
                .contains(&peer_config.device_mac_address.unwrap())
""","""        if self.device_role == peer_config.device_role
            || self.device_type == peer_config.device_type
        {
            return false;
        }
        let address = self.device_mac_address.unwrap();
        let peer_address = peer_config.device_mac_address.unwrap();
        self.dst_mac_address.iter().any(|dst| *dst == peer_address)
            && peer_config.dst_mac_address.iter().any(|dst| *dst == address)
""")]
R['ac-compat-opt']=[(ACF,"""        self.device_role != peer_config.device_role
            && self.device_type != peer_config.device_type
            && peer_config
                .dst_mac_address
                .contains(&self.device_mac_address.unwrap())
            && self
                .dst_mac_address
                .contains(&peer_config.device_mac_address.unwrap())
""","""        fn lists(config: &AppConfig, address: Option<MacAddress>) -> bool {
            address.is_some_and(|address| config.dst_mac_address.contains(&address))
        }

        self.device_role != peer_config.device_role
            && self.device_type != peer_config.device_type
            && lists(peer_config, self.device_mac_address)
            && lists(self, peer_config.device_mac_address)
""")]
R['ac-mac-short']=[(ACF,"""                self.device_mac_address = Some(match self.mac_address_mode {
                    uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                    uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                })
""","""                let address = match (self.mac_address_mode, value.len()) {
                    (uci::MacAddressMode::Mode0, 2) => MacAddress::Short([value[0], value[1]]),
                    (uci::MacAddressMode::Mode2, 8) => {
                        let mut address = [0; 8];
                        address.copy_from_slice(value);
                        MacAddress::Extended(address)
                    }
                    (mode, len) => anyhow::bail!("invalid mac address: {:?}, {}", mode, len),
                };
                self.device_mac_address = Some(address);
""")]
R['ac-order']=[(ACF,"""                self.number_of_controlees = try_parse_u8(value)?
            }
            uci::AppConfigTlvType::DeviceMac""","""                let n = value.first().copied().filter(|_| value.len() == 1);
                match n {
                    Some(n) => self.number_of_controlees = n,
                    None => anyhow::bail!("invalid number of controlees"),
                }
            }
            uci::AppConfigTlvType::DeviceMac""")]
R['ac-mac-parse']=[(MAF,"""        let mac_address = mac_address.replace(':', "").replace("%3A", "");
        Ok(match mac_address.len() {
            SHORT_MAC_ADDRESS_STR_SIZE => MacAddress::Short(
                <[u8; SHORT_MAC_ADDRESS_SIZE]>::from_hex(mac_address)
                    .map_err(|err| Error::MacAddressWrongFormat(err.to_string()))?,
            ),
            EXTENDED_MAC_ADDRESS_STR_SIZE => MacAddress::Extended(
                <[u8; EXTENDED_MAC_ADDRESS_SIZE]>::from_hex(mac_address)
                    .map_err(|err| Error::MacAddressWrongFormat(err.to_string()))?,
            ),
            _ => return Err(Error::MacAddressWrongFormat(mac_address)),
        })
""","""        fn wrong_format(err: hex::FromHexError) -> Error {
            Error::MacAddressWrongFormat(err.to_string())
        }

        let digits = mac_address.replace("%3A", "").replace(':', "");
        match digits.len() {
            SHORT_MAC_ADDRESS_STR_SIZE => <[u8; SHORT_MAC_ADDRESS_SIZE]>::from_hex(&digits)
                .map(MacAddress::Short)
                .map_err(wrong_format),
            EXTENDED_MAC_ADDRESS_STR_SIZE => {
                let address = <[u8; EXTENDED_MAC_ADDRESS_SIZE]>::from_hex(&digits);
                Ok(MacAddress::Extended(address.map_err(wrong_format)?))
            }
            _ => Err(Error::MacAddressWrongFormat(digits)),
        }
""")]
R['ac-mac-fmt']=[(MAF,"""            let mac_address: Vec<_> = addr.iter().map(|byte| format!("{:02X}:", byte)).collect();
            let s = mac_address
                .iter()
                .flat_map(|byte| byte.chars())
                .collect::<String>();
            s.trim_end_matches(':').into()
""","""            addr.iter()
                .map(|byte| format!("{:02X}", byte))
                .collect::<Vec<_>>()
                .join(":")
""")]
R['ac-mac-fmt2']=[(MAF,"""            let mac_address: Vec<_> = addr.iter().map(|byte| format!("{:02X}:", byte)).collect();
            let s = mac_address
                .iter()
                .flat_map(|byte| byte.chars())
                .collect::<String>();
            s.trim_end_matches(':').into()
""","""            let mut s = String::new();
            for (i, byte) in addr.iter().enumerate() {
                if i > 0 {
                    s.push(':');
                }
                s.push_str(&format!("{:02X}", byte));
            }
            s
""")]
R['ac-mac-u64']=[(MAF,"""            MacAddress::Short(addr) => u16::from_le_bytes(*addr) as u64,
""","""            MacAddress::Short([low, high]) => u64::from(*low) + (u64::from(*high) << 8),
""")]

# ---------------------------------------------------------------- the Python client and its bindings (run with -c tools/refactor/py.py)
PH, PU = 'py/pica/pica/__init__.py', 'py/pica/pica/packets/uci.py'
R['py-readexactly']=[(PH,"""        received = bytes()
        while len(received) < expected_len:
            chunk = await self.reader.read(expected_len - len(received))
            if not chunk:
                raise ConnectionError("socket disconnected")
            received += chunk
        return received
""","""        return await self.reader.readexactly(expected_len)
""")]
R['py-remaining']=[(PH,"""        received = bytes()
        while len(received) < expected_len:
            chunk = await self.reader.read(expected_len - len(received))
            if not chunk:
                raise ConnectionError("socket disconnected")
            received += chunk
        return received
""","""        chunks = []
        remaining = expected_len
        while remaining > 0:
            chunk = await self.reader.read(remaining)
            if len(chunk) == 0:
                raise EOFError()
            chunks.append(chunk)
            remaining -= len(chunk)
        return b"".join(chunks)
""")]
R['py-bytearray']=[(PH,"""        received = bytes()
        while len(received) < expected_len:
            chunk = await self.reader.read(expected_len - len(received))
            if not chunk:
                raise ConnectionError("socket disconnected")
            received += chunk
        return received
""","""        received = bytearray()
        while True:
            missing = expected_len - len(received)
            if missing == 0:
                return bytes(received)
            chunk = await self.reader.read(missing)
            if chunk == b"":
                raise ConnectionError("socket disconnected")
            received.extend(chunk)
""")]
R['py-segment-helper']=[(PH,"""            # Read the common packet header.
            header_bytes = await self._read_exact(4)
            common_header: CommonPacketHeader = uci.CommonPacketHeader.parse_all(
                header_bytes[0:1]
            )  # type: ignore

            if common_header.mt == uci.MessageType.DATA:
                # Read the packet payload.
                data_header: DataPacketHeader = uci.DataPacketHeader.parse_all(header_bytes)  # type: ignore
                payload_bytes = await self._read_exact(data_header.payload_length)

            else:
                # Read the packet payload.
                control_header: ControlPacketHeader = uci.ControlPacketHeader.parse_all(header_bytes)  # type: ignore
                payload_bytes = await self._read_exact(control_header.payload_length)

            complete_packet_bytes += payload_bytes

            # Check the Packet Boundary Flag.
            match common_header.pbf:
                case uci.PacketBoundaryFlag.COMPLETE:
                    return header_bytes + complete_packet_bytes
                case uci.PacketBoundaryFlag.NOT_COMPLETE:
                    pass
""","""            common_header, header_bytes, payload_bytes = await self._read_segment()
            complete_packet_bytes += payload_bytes
            if common_header.pbf == uci.PacketBoundaryFlag.COMPLETE:
                return header_bytes + complete_packet_bytes

    async def _read_segment(self):
        header_bytes = await self._read_exact(4)
        common_header = uci.CommonPacketHeader.parse_all(header_bytes[:1])
        if common_header.mt == uci.MessageType.DATA:
            header = uci.DataPacketHeader.parse_all(header_bytes)
        else:
            header = uci.ControlPacketHeader.parse_all(header_bytes)
        payload_bytes = await self._read_exact(header.payload_length)
        return common_header, header_bytes, payload_bytes
""")]
R['py-manual-header']=[(PH,"""                data_header: DataPacketHeader = uci.DataPacketHeader.parse_all(header_bytes)  # type: ignore
                payload_bytes = await self._read_exact(data_header.payload_length)
""","""                length = int.from_bytes(header_bytes[2:4], byteorder="little")
                payload_bytes = await self._read_exact(length)
"""),(PH,"""                control_header: ControlPacketHeader = uci.ControlPacketHeader.parse_all(header_bytes)  # type: ignore
                payload_bytes = await self._read_exact(control_header.payload_length)
""","""                payload_bytes = await self._read_exact(header_bytes[3])
""")]
R['py-break']=[(PH,"""            # Check the Packet Boundary Flag.
            match common_header.pbf:
                case uci.PacketBoundaryFlag.COMPLETE:
                    return header_bytes + complete_packet_bytes
                case uci.PacketBoundaryFlag.NOT_COMPLETE:
                    pass
""","""            if common_header.pbf != uci.PacketBoundaryFlag.NOT_COMPLETE:
                break
        return header_bytes + complete_packet_bytes
""")]
R['py-flag-loop']=[(PH,"""        while True:
            # Read the common packet header.
""","""        complete = False
        while not complete:
            # Read the common packet header.
"""),(PH,"""            match common_header.pbf:
                case uci.PacketBoundaryFlag.COMPLETE:
                    return header_bytes + complete_packet_bytes
                case uci.PacketBoundaryFlag.NOT_COMPLETE:
                    pass
""","""            complete = common_header.pbf == uci.PacketBoundaryFlag.COMPLETE

        return header_bytes + complete_packet_bytes
""")]
R['py-send-helper']=[(PH,"""        packet = bytearray(packet.serialize())
        size = len(packet) - 4
        size_bytes = size.to_bytes(2, byteorder="little")
        packet[2] = size_bytes[0]
        packet[3] = size_bytes[1]
        self.writer.write(packet)
""","""        packet = bytearray(packet.serialize())
        packet[2:4] = (len(packet) - 4).to_bytes(2, byteorder="little")
        self.writer.write(packet)
""")]
R['py-reader-queue']=[(PH,"""                if header.mt == uci.MessageType.DATA:
                    await self.data_queue.put(packet)
                else:
                    await self.control_queue.put(packet)
""","""                is_data = header.mt == uci.MessageType.DATA
                queue = self.data_queue if is_data else self.control_queue
                await queue.put(packet)
""")]
R['py-fromint']=[(PU,("class SessionType(","""        try:
            return SessionType(v)
        except ValueError as exn:
            raise exn
"""),"""        return SessionType(v)
""")]
R['py-offset']=[(PU,("class SessionSetAppConfigCmd(","""        value_ = int.from_bytes(span[0:4], byteorder='little')
        fields['session_token'] = value_
        tlvs_count = span[4]
        span = span[5:]
"""),"""        fields['session_token'] = int.from_bytes(span[:4], 'little')
        span = span[4:]
        tlvs_count, span = span[0], span[1:]
""")]
R['py-while-tlvs']=[(PU,("class SessionSetAppConfigCmd(","""        tlvs = []
        for n in range(tlvs_count):
            element, span = AppConfigTlv.parse(span)
            tlvs.append(element)
        fields['tlvs'] = tlvs
"""),"""        fields['tlvs'] = []
        while len(fields['tlvs']) < tlvs_count:
            element, span = AppConfigTlv.parse(span)
            fields['tlvs'].append(element)
""")]
R['py-ser-comp']=[(PU,("class SessionSetAppConfigCmd(","""        for _elt in self.tlvs:
            _span.extend(_elt.serialize())
"""),"""        _span.extend(b''.join(elt.serialize() for elt in self.tlvs))
""")]
R['py-ser-tobytes']=[(PU,("class SessionSetAppConfigCmd(","""        _span.extend(int.to_bytes((self.session_token << 0), length=4, byteorder='little'))
"""),"""        _span += self.session_token.to_bytes(4, 'little')
""")]
R['py-struct']=[(PU,"""import math
""","""import math
import struct
"""),(PU,("class SessionSetAppConfigCmd(","""        _span.extend(int.to_bytes((self.session_token << 0), length=4, byteorder='little'))
"""),"""        _span.extend(struct.pack('<I', self.session_token))
""")]
R['py-mask-helper']=[(PU,"""@dataclass
class CommonPacketHeader(Packet):
""","""def _bits(value: int, shift: int, width: int) -> int:
    return (value >> shift) & ((1 << width) - 1)


@dataclass
class CommonPacketHeader(Packet):
"""),(PU,("class CommonPacketHeader(","""        fields['pbf'] = PacketBoundaryFlag.from_int((span[0] >> 4) & 0x1)
        fields['mt'] = MessageType.from_int((span[0] >> 5) & 0x7)
"""),"""        fields['pbf'] = PacketBoundaryFlag.from_int(_bits(span[0], 4, 1))
        fields['mt'] = MessageType.from_int(_bits(span[0], 5, 3))
""")]
R['py-ser-value']=[(PU,("class CommonPacketHeader(","""        _span = bytearray()
        _value = (
            (self.pbf << 4) |
            (self.mt << 5)
        )
        _span.append(_value)
        return bytes(_span)
"""),"""        return bytes([(self.mt << 5) | (self.pbf << 4)])
""")]
R['py-children-loop']=[(PU,("class SessionInfoNtf(SessionControlPacket)","""        try:
            child, remainder = ShortMacTwoWaySessionInfoNtf.parse(fields.copy(), payload)
            if remainder:
                raise Exception('Unexpected parsing remainder')
            return child, span
        except Exception as exn:
            pass
        try:
            child, remainder = ExtendedMacTwoWaySessionInfoNtf.parse(fields.copy(), payload)
            if remainder:
                raise Exception('Unexpected parsing remainder')
            return child, span
        except Exception as exn:
            pass
"""),"""        for cls in (ShortMacTwoWaySessionInfoNtf, ExtendedMacTwoWaySessionInfoNtf):
            try:
                child, remainder = cls.parse(fields.copy(), payload)
                if not remainder:
                    return child, span
            except Exception:
                continue
""")]
R['py-array-comp']=[(PU,("class ShortMacTwoWaySessionInfoNtf(","""        two_way_ranging_measurements = []
        for n in range(two_way_ranging_measurements_count):
            two_way_ranging_measurements.append(ShortAddressTwoWayRangingMeasurement.parse_all(span[n * 31:(n + 1) * 31]))
        fields['two_way_ranging_measurements'] = two_way_ranging_measurements
"""),"""        fields['two_way_ranging_measurements'] = [
            ShortAddressTwoWayRangingMeasurement.parse_all(span[n * 31:(n + 1) * 31])
            for n in range(two_way_ranging_measurements_count)
        ]
""")]
R['py-constraint']=[(PU,("class ShortMacTwoWaySessionInfoNtf(","""        if fields['ranging_measurement_type'] != RangingMeasurementType.TWO_WAY or fields['mac_address_indicator'] != MacAddressIndicator.SHORT_ADDRESS or fields['mt'] != MessageType.NOTIFICATION or fields['oid'] != SessionControlOpcodeId.START or fields['gid'] != GroupId.SESSION_CONTROL:
            raise Exception("Invalid constraint field values")
"""),"""        if not (
            fields['ranging_measurement_type'] == RangingMeasurementType.TWO_WAY
            and fields['mac_address_indicator'] == MacAddressIndicator.SHORT_ADDRESS
            and fields['mt'] == MessageType.NOTIFICATION
            and fields['oid'] == SessionControlOpcodeId.START
            and fields['gid'] == GroupId.SESSION_CONTROL
        ):
            raise ValueError("Invalid constraint field values")
""")]
R['py-enum-int']=[(PU,("class MacAddressIndicator(","""    SHORT_ADDRESS = 0x0
    EXTENDED_ADDRESS = 0x1
"""),"""    SHORT_ADDRESS = 0
    EXTENDED_ADDRESS = SHORT_ADDRESS + 1
""")]
R['py-list-bytes']=[(PU,("class AppConfigTlv(","""        fields['v'] = list(span[:v_count])
        span = span[v_count:]
        return AppConfigTlv(**fields), span
"""),"""        fields['v'], span = list(span[:v_count]), span[v_count:]
        return AppConfigTlv(payload=None, cfg_id=fields['cfg_id'], v=fields['v']), span
""")]
R['py-postinit']=[(PU,("class SessionSetAppConfigCmd(","""        self.mt = MessageType.COMMAND
        self.oid = SessionConfigOpcodeId.SET_APP_CONFIG
        self.gid = GroupId.SESSION_CONFIG
"""),"""        self.gid, self.oid = GroupId.SESSION_CONFIG, SessionConfigOpcodeId.SET_APP_CONFIG
        self.mt = MessageType.COMMAND
""")]
R['py-super']=[(PU,("class SessionSetAppConfigCmd(","""        return SessionConfigPacket.serialize(self, payload = bytes(_span))
"""),"""        return super().serialize(payload=bytes(_span))
""")]
R['py-fields-local']=[(PU,("class Controlee(Packet)","""        fields = {'payload': None}
        if len(span) < 2:
            raise Exception('Invalid packet size')
        fields['short_address'] = list(span[:2])
        span = span[2:]
        if len(span) < 4:
            raise Exception('Invalid packet size')
        value_ = int.from_bytes(span[0:4], byteorder='little')
        fields['subsession_id'] = value_
        span = span[4:]
        return Controlee(**fields), span
"""),"""        if len(span) < 6:
            raise Exception('Invalid packet size')
        short_address = list(span[:2])
        subsession_id = int.from_bytes(span[2:6], byteorder='little')
        return Controlee(short_address=short_address, subsession_id=subsession_id), span[6:]
""")]

# ---------------------------------------------------------------- fr: a fresh batch over the emulator
DEC="""self.n_active_sessions -= 1;
                    if self.n_active_sessions == 0 {
                        self.set_state(DeviceState::DeviceStateReady);
                    }"""
R['fr-release']=[(D,"""    pub fn init(&mut self) {
        self.set_state(DeviceState::DeviceStateReady);
    }
""","""    pub fn init(&mut self) {
        self.set_state(DeviceState::DeviceStateReady);
    }

    /// Account for a session that leaves the active state.
    pub fn release_active_session(&mut self) {
        self.n_active_sessions = self.n_active_sessions.saturating_sub(1);
        match self.n_active_sessions {
            0 => self.set_state(DeviceState::DeviceStateReady),
            _ => (),
        }
    }
"""),(D,("fn session_deinit","""                    self.n_active_sessions -= 1;
                    if self.n_active_sessions == 0 {
                        self.set_state(DeviceState::DeviceStateReady);
                    }
"""),"""                    self.release_active_session();
"""),(D,("if was_active {","""                self.n_active_sessions -= 1;
                if self.n_active_sessions == 0 {
                    self.set_state(DeviceState::DeviceStateReady);
                }
"""),"""                self.release_active_session();
"""),(D,("fn session_stop","""        self.n_active_sessions -= 1;
        if self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }
"""),"""        self.release_active_session();
"""),(L,"""                device.n_active_sessions = device.n_active_sessions.saturating_sub(1);
                if device.n_active_sessions == 0 {
                    device.set_state(DeviceState::DeviceStateReady);
                }
""","""                device.release_active_session();
""")]
R['fr-send-later']=[(S,"""        let tx = self.tx.clone();
        let session_id = self.id;
        tokio::spawn(async move {
            time::sleep(Duration::from_millis(1)).await;
            // An error here means that the host is disconnected, ignore it.
            let _ = tx.send(
                SessionStatusNtf {
                    session_token: session_id,
                    session_state,
                    reason_code: reason_code.into(),
                }
                .encode_to_vec()
                .unwrap(),
            );
        });
    }
""","""        send_later(
            &self.tx,
            Duration::from_millis(1),
            SessionStatusNtf {
                session_token: self.id,
                session_state,
                reason_code: reason_code.into(),
            },
        );
    }
"""),(S,"""impl Session {
    pub fn new(""","""/// Send a notification after the response to the current command.
pub(crate) fn send_later(
    tx: &mpsc::UnboundedSender<UciPacket>,
    delay: Duration,
    packet: impl Packet + Send + 'static,
) {
    let tx = tx.clone();
    tokio::spawn(async move {
        time::sleep(delay).await;
        // An error here means that the host is disconnected, ignore it.
        tx.send(packet.encode_to_vec().unwrap()).ok();
    });
}

impl Session {
    pub fn new("""),(D,"""        let tx = self.tx.clone();
        tokio::spawn(async move {
            time::sleep(Duration::from_millis(5)).await;
            // An error here means that the host is disconnected, ignore it.
            let _ = tx.send(
                CoreDeviceStatusNtf { device_state }
                    .encode_to_vec()
                    .unwrap(),
            );
        });
    }
""","""        crate::session::send_later(
            &self.tx,
            Duration::from_millis(5),
            CoreDeviceStatusNtf { device_state },
        );
    }
"""),(D,"""                    let tx = self.tx.clone();
                    tokio::spawn(async move {
                        // Sleep for 5ms to make sure the notification is not being
                        // sent before the response.
                        // TODO(#84) remove the sleep.
                        time::sleep(Duration::from_millis(5)).await;
                        // An error here means that the host is disconnected, ignore it.
                        let _ = tx.send(
                            SessionUpdateControllerMulticastListNtf {
                                controlee_status: controlee_status_ntf,
                                session_token: session_handle,
                            }
                            .encode_to_vec()
                            .unwrap(),
                        );
                    });
""","""                    // Sleep for 5ms to make sure the notification is not being
                    // sent before the response.
                    // TODO(#84) remove the sleep.
                    crate::session::send_later(
                        &self.tx,
                        Duration::from_millis(5),
                        SessionUpdateControllerMulticastListNtf {
                            controlee_status: controlee_status_ntf,
                            session_token: session_handle,
                        },
                    );
""")]
R['fr-status-closure']=[(S,"""        if self.session_type != SessionType::FiraRangingAndInBandDataSession {
            return SessionDataTransferStatusNtf {
                session_token,
                status: DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported,
                tx_count: 1, // TODO: support for retries?
                uci_sequence_number,
            }
            .try_into()
            .unwrap();
        }
""","""        let failure = |status: DataTransferNtfStatusCode| -> ControlPacket {
            SessionDataTransferStatusNtf {
                session_token,
                status,
                tx_count: 1, // TODO: support for retries?
                uci_sequence_number,
            }
            .try_into()
            .unwrap()
        };

        if self.session_type != SessionType::FiraRangingAndInBandDataSession {
            return failure(
                DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported,
            );
        }
"""),(S,"""        if self.data.len() + data.application_data.len() > u16::MAX as usize {
            return SessionDataTransferStatusNtf {
                session_token,
                status: DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable,
                tx_count: 1, // TODO: support for retries?
                uci_sequence_number,
            }
            .try_into()
            .unwrap();
        }

        self.data.extend_from_slice(&data.application_data);
""","""        let size = self.data.len() + data.application_data.len();
        if u16::try_from(size).is_err() {
            return failure(DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable);
        }

        self.data.reserve(data.application_data.len());
        self.data.extend(data.application_data);
""")]
R['fr-setapp-match']=[(D,"""        if session.state == SessionState::SessionStateActive {
            const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
            if cmd
                .tlvs
                .iter()
                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))
            {
                return SessionSetAppConfigRsp {
                    status: uci::Status::ErrorSessionActive,
                    cfg_status: vec![],
                };
            }
        }

        let (status, invalid_parameters) = if session.state != SessionState::SessionStateInit
            && session.state != SessionState::SessionStateActive
        {
            (uci::Status::Rejected, Vec::new())
        } else {
            let mut app_config""","""        let refused = |status| SessionSetAppConfigRsp {
            status,
            cfg_status: vec![],
        };

        let first_configuration = match session.state {
            SessionState::SessionStateActive => {
                let immutable = cmd
                    .tlvs
                    .iter()
                    .filter(|cfg| matches!(cfg.cfg_id, AppConfigTlvType::AoaResultReq))
                    .count();
                if immutable > 0 {
                    return refused(uci::Status::ErrorSessionActive);
                }
                false
            }
            SessionState::SessionStateInit => true,
            _ => return refused(uci::Status::Rejected),
        };

        let (status, invalid_parameters) = {
            let mut app_config"""),(D,"""                if session.state == SessionState::SessionStateInit {
                    session.set_state(
                        SessionState::SessionStateIdle,""","""                if first_configuration {
                    session.set_state(
                        SessionState::SessionStateIdle,""")]
R['fr-setapp-mandatory']=[(D,"""            if app_config.device_role.is_none()
                || app_config.multi_node_mode.is_none()
                || app_config.ranging_round_usage.is_none()
                || app_config.device_mac_address.is_none()
                || app_config.schedule_mode.is_none()
            {""","""            let mandatory = [
                app_config.device_role.is_some(),
                app_config.multi_node_mode.is_some(),
                app_config.ranging_round_usage.is_some(),
                app_config.device_mac_address.is_some(),
                app_config.schedule_mode.is_some(),
            ];
            if !mandatory.iter().all(|present| *present) {"""),(D,"""            for cfg in cmd.tlvs {
                match app_config.set(cfg.cfg_id, &cfg.v) {
                    Ok(_) => (),
                    Err(_) => invalid_parameters.push(AppConfigStatus {
                        cfg_id: cfg.cfg_id,
                        status: uci::Status::InvalidParam,
                    }),
                }
            }
""","""            for AppConfigTlv { cfg_id, v } in cmd.tlvs {
                if app_config.set(cfg_id, &v).is_ok() {
                    continue;
                }
                invalid_parameters.push(AppConfigStatus {
                    cfg_id,
                    status: uci::Status::InvalidParam,
                });
            }
""")]
R['fr-dispatch-fns']=[(D,"""            CorePacket(cmd) => match cmd.specialize().unwrap_or(CorePacketChild::None) {
                CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
                _ => unknown_oid,
            },
""","""            CorePacket(cmd) => self.receive_core_command(cmd).unwrap_or(unknown_oid),
"""),(D,"""    fn receive_command(&mut self, cmd: ControlPacket) -> ControlPacket {
        use AndroidPacketChild::*;
        use ControlPacketChild::*;
        use CorePacketChild::*;
""","""    fn receive_core_command(&mut self, cmd: CorePacket) -> Option<ControlPacket> {
        use CorePacketChild::*;
        let response = match cmd.specialize().ok()? {
            CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into(),
            CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into(),
            CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into(),
            CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into(),
            CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into(),
            _ => return Option::None,
        };
        Some(response.unwrap())
    }

    fn receive_command(&mut self, cmd: ControlPacket) -> ControlPacket {
        use AndroidPacketChild::*;
        use ControlPacketChild::*;
""")]
R['fr-into-control']=[(D,"""            AndroidPacket(cmd) => match cmd.specialize().unwrap_or(AndroidPacketChild::None) {
                AndroidSetCountryCodeCmd(cmd) => {
                    self.android_set_country_code(cmd).try_into().unwrap()
                }
                AndroidGetPowerStatsCmd(cmd) => {
                    self.android_get_power_stats(cmd).try_into().unwrap()
                }
                _ => unknown_oid,
            },
""","""            AndroidPacket(cmd) => match cmd.specialize() {
                Ok(AndroidSetCountryCodeCmd(cmd)) => into_control(self.android_set_country_code(cmd)),
                Ok(AndroidGetPowerStatsCmd(cmd)) => into_control(self.android_get_power_stats(cmd)),
                Ok(_) | Err(_) => unknown_oid,
            },
"""),(D,"""struct Controlee {
    short_address""","""fn into_control<T>(response: T) -> ControlPacket
where
    T: TryInto<ControlPacket>,
    T::Error: std::fmt::Debug,
{
    response.try_into().expect("the response is valid")
}

struct Controlee {
    short_address""")]
R['fr-receive-split']=[(D,"""            MessageType::Data => match DataPacket::decode_full(&packet) {
                Ok(packet) => {
                    if let Some(notification) = self.data_message_snd(packet) {
                        self.send_control(notification)
                    }
                }
                Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
            },
            MessageType::Command => {
                match ControlPacket::decode_full(&packet) {""","""            MessageType::Data => self.receive_data(&packet),
            MessageType::Command => {
                match ControlPacket::decode_full(&packet) {"""),(D,"""    pub fn receive_packet(&mut self, packet: Vec<u8>) {""","""    fn receive_data(&mut self, packet: &[u8]) {
        let notification = DataPacket::decode_full(packet)
            .map_err(|err| log::error!("failed to parse incoming Data packet: {}", err))
            .ok()
            .and_then(|packet| self.data_message_snd(packet));
        if let Some(notification) = notification {
            self.send_control(notification);
        }
    }

    pub fn receive_packet(&mut self, packet: Vec<u8>) {"""),(D,"""                        let status = if GroupId::try_from(group_id).is_ok() {
                            uci::Status::UnknownOid
                        } else {
                            uci::Status::UnknownGid
                        };
                        // The PDL generated code cannot be used to generate
                        // responses with invalid group identifiers.
                        let response = vec![
                            (u8::from(MessageType::Response) << 5) | group_id,
                            opcode_id,
                            0,
                            1,
                            status.into(),
                        ];
                        self.send_raw_control(response)
""","""                        let status = match GroupId::try_from(group_id) {
                            Err(_) => uci::Status::UnknownGid,
                            Ok(_) => uci::Status::UnknownOid,
                        };
                        // The PDL generated code cannot be used to generate
                        // responses with invalid group identifiers.
                        let mut response = vec![0; HEADER_SIZE + 1];
                        response[0] = group_id | (u8::from(MessageType::Response) << 5);
                        response[1] = opcode_id;
                        response[3] = 1;
                        response[4] = u8::from(status);
                        self.send_raw_control(response)
""")]
R['fr-controlee-status']=[(D,("sub_session_id: value.subsession_id,\n            session_key: SubSessionKey::None,","""impl From<&uci::Controlee_V2_0_16_Byte_Version> for Controlee {"""),"""impl Controlee {
    fn status(&self, status: MulticastUpdateStatus) -> ControleeStatus {
        let MacAddress::Short(mac_address) = self.short_address else {
            panic!("Extended address is not supported!")
        };
        ControleeStatus {
            mac_address,
            status,
        }
    }
}

impl From<&uci::Controlee_V2_0_16_Byte_Version> for Controlee {"""),(D,"""                        controlee_status_ntf.push(ControleeStatus {
                            mac_address: match controlee.short_address {
                                MacAddress::Short(address) => address,
                                MacAddress::Extended(_) => {
                                    panic!("Extended address is not supported!")
                                }
                            },
                            status: update_status,
                        });
                    } else {""","""                        controlee_status_ntf.push(controlee.status(update_status));
                    } else {"""),(D,"""                        controlee_status_rsp.push(ControleeStatus {
                            mac_address: match controlee.short_address {
                                MacAddress::Short(address) => address,
                                MacAddress::Extended(_) => {
                                    panic!("Extended address is not supported!")
                                }
                            },
                            status: update_status,
                        });
                    }
                });""","""                        controlee_status_rsp.push(controlee.status(update_status));
                    }
                });"""),(D,"""                        controlee_status_ntf.push(ControleeStatus {
                            mac_address: match address {
                                MacAddress::Short(addr) => addr,
                                MacAddress::Extended(_) => {
                                    panic!("Extended address is not supported!")
                                }
                            },
                            status: update_status,
                        });
                    }
                    controlee_status_rsp.push(ControleeStatus {
                        mac_address: match address {
                            MacAddress::Short(addr) => addr,
                            MacAddress::Extended(_) => panic!("Extended address is not supported!"),
                        },
                        status: update_status,
                    });
""","""                        controlee_status_ntf.push(controlee.status(update_status));
                    }
                    controlee_status_rsp.push(controlee.status(update_status));
""")]
R['fr-mc-status-expr']=[(D,"""                    let mut update_status = MulticastUpdateStatus::OkMulticastListUpdate;
                    if !dst_addresses.contains(&address) {
                        status = uci::Status::Failed;
                        update_status = MulticastUpdateStatus::ErrorAddressNotFound;
                    } else {
                        dst_addresses.retain(|value| *value != address);
""","""                    let present = dst_addresses.iter().any(|value| *value == address);
                    let update_status = if present {
                        MulticastUpdateStatus::OkMulticastListUpdate
                    } else {
                        MulticastUpdateStatus::ErrorAddressNotFound
                    };
                    if !present {
                        status = uci::Status::Failed;
                    } else {
                        dst_addresses = dst_addresses
                            .iter()
                            .copied()
                            .filter(|value| *value != address)
                            .collect();
"""),(D,"""                        if attempt_count != 0 {
                            tokio::spawn(async move {
                                for _ in 0..attempt_count {
                                    pica_tx
                                        .send(PicaCommand::StopRanging(address, session_handle))
                                        .await
                                        .unwrap()
                                }
                            });
                        }
""","""                        if attempt_count > 0 {
                            tokio::spawn(async move {
                                let mut remaining = attempt_count;
                                while remaining > 0 {
                                    let request = PicaCommand::StopRanging(address, session_handle);
                                    if pica_tx.send(request).await.is_err() {
                                        panic!("the event loop is gone");
                                    }
                                    remaining -= 1;
                                }
                            });
                        }
""")]
R['fr-mc-decode-macro']=[(D,"""            UpdateMulticastListAction::AddControleeWithShortSubSessionKey => {
                if let Ok(packet) =
                    SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::decode_full(
                        &cmd.payload,
                    )
                {
                    packet
                        .controlees
                        .iter()
                        .map(|controlee| controlee.into())
                        .collect()
                } else {
                    return SessionUpdateControllerMulticastListRsp {
                        status: uci::Status::SyntaxError,
                        controlee_status: vec![],
                    };
                }
            }
""","""            UpdateMulticastListAction::AddControleeWithShortSubSessionKey => {
                let Ok(SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload { controlees }) =
                    SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::decode_full(
                        cmd.payload.as_slice(),
                    )
                else {
                    return SessionUpdateControllerMulticastListRsp {
                        status: uci::Status::SyntaxError,
                        controlee_status: vec![],
                    };
                };
                let mut list = Vec::with_capacity(controlees.len());
                for controlee in &controlees {
                    list.push(Controlee::from(controlee));
                }
                list
            }
""")]
R['fr-mc-empty']=[(D,"""        session.app_config.number_of_controlees = dst_addresses.len() as u8;
        session.app_config.dst_mac_address = dst_addresses.clone();
""","""        let is_empty = dst_addresses.is_empty();
        session.app_config.number_of_controlees = dst_addresses.len() as u8;
        session.app_config.dst_mac_address = dst_addresses;
"""),(D,"""        if session.app_config.dst_mac_address.is_empty() {
            let was_active = session.state == SessionState::SessionStateActive;
            session.stop_ranging_task();
            session.set_state(
                SessionState::SessionStateIdle,
                ReasonCode::ErrorInvalidNumOfControlees,
            );
            if was_active {
                self.n_active_sessions -= 1;
                if self.n_active_sessions == 0 {
                    self.set_state(DeviceState::DeviceStateReady);
                }
            }
        }
""","""        if is_empty && session.state == SessionState::SessionStateActive {
            session.stop_ranging_task();
            session.set_state(
                SessionState::SessionStateIdle,
                ReasonCode::ErrorInvalidNumOfControlees,
            );
            self.n_active_sessions -= 1;
            if self.n_active_sessions == 0 {
                self.set_state(DeviceState::DeviceStateReady);
            }
        }
""")]
R['fr-start-timer']=[(D,"""        let ranging_interval =
            time::Duration::from_millis(session.app_config.ranging_duration as u64);

        let tx = self.pica_tx.clone();
        let handle = self.handle;
        session.ranging_task = Some(tokio::spawn(async move {
            loop {
                time::sleep(ranging_interval).await;
                tx.send(PicaCommand::Ranging(handle, session_id))
                    .await
                    .unwrap();
            }
        }));

        session.set_state(
            SessionState::SessionStateActive,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
""","""        session.start_ranging(self.handle, self.pica_tx.clone());
"""),(S,"""    pub fn stop_ranging_task(&mut self) {""","""    /// Start the ranging timer and enter the active state.
    pub fn start_ranging(&mut self, device: usize, tx: mpsc::Sender<crate::PicaCommand>) {
        let session_id = self.id;
        let period = u64::from(self.app_config.ranging_duration);
        let timer = async move {
            loop {
                time::sleep(Duration::from_millis(period)).await;
                let command = crate::PicaCommand::Ranging(device, session_id);
                tx.send(command).await.unwrap();
            }
        };
        self.ranging_task.replace(tokio::spawn(timer));
        self.set_state(
            SessionState::SessionStateActive,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
    }

    pub fn stop_ranging_task(&mut self) {""")]
R['fr-stop-method']=[(S,"""    pub fn stop_ranging_task(&mut self) {""","""    /// Leave the active state; returns whether the session was active.
    pub fn deactivate(&mut self, reason_code: ReasonCode) -> bool {
        let was_active = matches!(self.state, SessionState::SessionStateActive);
        if was_active {
            self.stop_ranging_task();
            self.set_state(SessionState::SessionStateIdle, reason_code);
        }
        was_active
    }

    pub fn stop_ranging_task(&mut self) {"""),(D,"""        if session.state != SessionState::SessionStateActive {
            return SessionStopRsp {
                status: uci::Status::ErrorSessionActive,
            };
        }

        session.stop_ranging_task();
        session.set_state(
            SessionState::SessionStateIdle,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
""","""        if !session.deactivate(ReasonCode::StateChangeWithSessionManagementCommands) {
            return SessionStopRsp {
                status: uci::Status::ErrorSessionActive,
            };
        }
"""),(L,"""            if session.session_state() == SessionState::SessionStateActive {
                session.stop_ranging_task();
                session.set_state(
                    SessionState::SessionStateIdle,
                    ReasonCode::SessionStoppedDueToInbandSignal,
                );
                device""","""            if session.deactivate(ReasonCode::SessionStoppedDueToInbandSignal) {
                device""")]
R['fr-with-session']=[(D,"""        let Some(session) = self.sessions.get(&session_handle) else {
            return SessionGetStateRsp {
                session_state: SessionState::SessionStateInit,
                status: uci::Status::ErrorSessionNotExist,
            };
        };

        SessionGetStateRsp {
            status: uci::Status::Ok,
            session_state: session.state,
        }
""","""        let (status, session_state) = self.session(session_handle).map_or(
            (
                uci::Status::ErrorSessionNotExist,
                SessionState::SessionStateInit,
            ),
            |session| (uci::Status::Ok, session.session_state()),
        );
        SessionGetStateRsp {
            status,
            session_state,
        }
"""),(D,"""        let Some(session) = self.sessions.get(&session_id) else {
            return SessionGetRangingCountRsp {
                status: uci::Status::ErrorSessionNotExist,
                count: 0,
            };
        };

        SessionGetRangingCountRsp {
            status: uci::Status::Ok,
            count: session.sequence_number,
        }
""","""        let count = self
            .sessions
            .get(&session_id)
            .map(|session| session.sequence_number);
        SessionGetRangingCountRsp {
            status: if count.is_some() {
                uci::Status::Ok
            } else {
                uci::Status::ErrorSessionNotExist
            },
            count: count.unwrap_or_default(),
        }
""")]
R['fr-getconfig-early']=[(D,"""        let mut valid_parameters = vec![];
        let mut invalid_parameters = vec![];
        for id in cmd.parameter_ids {
            match id {
                ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                    id,
                    value: vec![self.state.into()],
                }),
                ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                    id,
                    value: vec![self.config.low_power_mode.into()],
                }),
                ConfigParameterId::Rfu(_) => {
                    invalid_parameters.push(ConfigParameter { id, value: vec![] })
                }
            }
        }

        if invalid_parameters.is_empty() {
            CoreGetConfigRsp {
                status: uci::Status::Ok,
                parameters: valid_parameters,
            }
        } else {
            CoreGetConfigRsp {
                status: uci::Status::InvalidParam,
                parameters: invalid_parameters,
            }
        }
""","""        let unavailable: Vec<ConfigParameter> = cmd
            .parameter_ids
            .iter()
            .filter(|id| matches!(id, ConfigParameterId::Rfu(_)))
            .map(|id| ConfigParameter {
                id: *id,
                value: Vec::new(),
            })
            .collect();
        if !unavailable.is_empty() {
            return CoreGetConfigRsp {
                status: uci::Status::InvalidParam,
                parameters: unavailable,
            };
        }

        let parameters = cmd
            .parameter_ids
            .into_iter()
            .map(|id| {
                let value: u8 = match id {
                    ConfigParameterId::DeviceState => self.state.into(),
                    ConfigParameterId::LowPowerMode => self.config.low_power_mode as u8,
                    ConfigParameterId::Rfu(_) => 0,
                };
                ConfigParameter {
                    id,
                    value: vec![value],
                }
            })
            .collect();
        CoreGetConfigRsp {
            status: uci::Status::Ok,
            parameters,
        }
""")]
R['fr-setconfig-status']=[(D,"""        let mut invalid_parameters = vec![];
        for parameter in cmd.parameters {
            match parameter.id {
                uci::ConfigParameterId::DeviceState => {
                    invalid_parameters.push(uci::ConfigParameterStatus {
                        id: parameter.id,
                        status: uci::Status::ReadOnly,
                    })
                }
                uci::ConfigParameterId::LowPowerMode => {
                    self.config.low_power_mode = parameter.value.first().copied().unwrap_or(1) != 0;
                }
                uci::ConfigParameterId::Rfu(id) => {
                    log::warn!("unknown config parameter id 0x{:02x}", *id);
                    invalid_parameters.push(uci::ConfigParameterStatus {
                        id: parameter.id,
                        status: uci::Status::InvalidParam,
                    })
                }
            }
        }

        CoreSetConfigRsp {
            status: if invalid_parameters.is_empty() {
                uci::Status::Ok
            } else {
                uci::Status::InvalidParam
            },
            parameters: invalid_parameters,
        }
""","""        let mut status = uci::Status::Ok;
        let mut parameters = Vec::new();
        for uci::ConfigParameter { id, value } in cmd.parameters {
            let refusal = match id {
                uci::ConfigParameterId::LowPowerMode => {
                    self.config.low_power_mode = !matches!(value.first(), Some(0));
                    continue;
                }
                uci::ConfigParameterId::DeviceState => uci::Status::ReadOnly,
                uci::ConfigParameterId::Rfu(id) => {
                    log::warn!("unknown config parameter id 0x{:02x}", *id);
                    uci::Status::InvalidParam
                }
            };
            status = uci::Status::InvalidParam;
            parameters.push(uci::ConfigParameterStatus {
                id,
                status: refusal,
            });
        }

        CoreSetConfigRsp { status, parameters }
""")]
R['fr-measure-closure']=[(L,"""                let Some(local) = self
                    .ranging_estimator
                    .estimate(&device.handle, &other.handle)
                else {
                    continue;
                };
                let Some(remote) = self
                    .ranging_estimator
                    .estimate(&other.handle, &device.handle)
                else {
                    continue;
                };
                measurements.extend(make_measurement(mac_address, local, remote));
""","""                measurements.extend(measure(mac_address, other.handle));
"""),(L,"""        let mut data_transfer = Vec::new();
        let mut measurements = Vec::new();
""","""        let measure = |peer_address: &MacAddress, peer: Handle| {
            let estimator = &self.ranging_estimator;
            let local = estimator.estimate(&device_handle, &peer)?;
            let remote = estimator.estimate(&peer, &device_handle)?;
            make_measurement(peer_address, local, remote)
        };
        let mut data_transfer = Vec::new();
        let mut measurements = Vec::new();
"""),(L,"""                if let (Some(local), Some(remote)) = (
                    self.ranging_estimator
                        .estimate(&device.handle, &peer_device.handle),
                    self.ranging_estimator
                        .estimate(&peer_device.handle, &device.handle),
                ) {
                    measurements.extend(make_measurement(&peer_mac_address, local, remote));
                }
""","""                measurements.extend(measure(&peer_mac_address, peer_device.handle));
""")]
R['fr-peers-vec']=[(L,"""        for peer_device in self.devices.values() {
            if peer_device.handle == device_handle {
                continue;
            }

            if peer""","""        let peers: Vec<&Device> = self
            .devices
            .iter()
            .filter(|(handle, _)| **handle != device_handle)
            .map(|(_, peer)| peer)
            .collect();
        for peer_device in peers.iter().copied() {
            if peer"""),(L,"""
            if device.can_start_data_transfer(session_id)
                && peer_device.can_receive_data_transfer(session_id)
            {
                data_transfer.push(peer_device);
            }
        }
""","""        }
        if device.can_start_data_transfer(session_id) {
            data_transfer.extend(
                peers
                    .into_iter()
                    .filter(|peer| peer.can_receive_data_transfer(session_id)),
            );
        }
""")]
R['fr-ranging-report']=[(L,"""        if session.is_session_info_ntf_enabled() {
            // An error here means that the device is disconnecting, ignore it.
            let _ = device.tx.send(
                // TODO: support extended address
                ShortMacTwoWaySessionInfoNtf {
                    sequence_number: session.sequence_number,
                    session_token: session_id,
                    rcr_indicator: 0,            //TODO
                    current_ranging_interval: 0, //TODO
                    two_way_ranging_measurements: measurements,
                    vendor_data: vec![],
                }
                .encode_to_vec()
                .unwrap(),
            );

            let device = self.get_device_mut(device_handle).unwrap();
            let session = device.session_mut(session_id).unwrap();

            session.sequence_number += 1;
        }

        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();
""","""        if let Some(session) = self
            .get_device_mut(device_handle)
            .and_then(|device| device.session_mut(session_id))
        {
            session.report(measurements);
            // TODO: Clean the data only when all the data is transfered
            session.clear_data();
        }
"""),(S,"""    pub fn stop_ranging_task(&mut self) {""","""    /// Send the report of one ranging round, if enabled.
    pub fn report(&mut self, measurements: Vec<ShortAddressTwoWayRangingMeasurement>) {
        if !self.is_session_info_ntf_enabled() {
            return;
        }
        // TODO: support extended address
        let packet = ShortMacTwoWaySessionInfoNtf {
            sequence_number: self.sequence_number,
            session_token: self.id,
            rcr_indicator: 0,            //TODO
            current_ranging_interval: 0, //TODO
            two_way_ranging_measurements: measurements,
            vendor_data: vec![],
        };
        // An error here means that the device is disconnecting, ignore it.
        let _ = self.tx.send(packet.encode_to_vec().unwrap());
        self.sequence_number += 1;
    }

    pub fn stop_ranging_task(&mut self) {""")]
R['fr-read-concat']=[(K,"""        let mut packet = vec![0; HEADER_SIZE];

        // Read the common packet header.
        socket.read_exact(&mut packet[0..HEADER_SIZE]).await.ok()?;

        let common_packet_header =
            CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE]).ok()?;

        let payload_length = match common_packet_header.mt {
            MessageType::Data => {
                let data_packet_header =
                    DataPacketHeader::decode_full(&packet[0..HEADER_SIZE]).ok()?;
                data_packet_header.payload_length as usize
            }
            _ => {
                let control_packet_header =
                    ControlPacketHeader::decode_full(&packet[0..HEADER_SIZE]).ok()?;
                control_packet_header.payload_length as usize
            }
        };

        // Read the packet payload.
        packet.resize(payload_length + HEADER_SIZE, 0);
        socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;

        Some((packet, socket))
""","""        // Read the common packet header.
        let mut header = [0u8; HEADER_SIZE];
        socket.read_exact(&mut header).await.ok()?;

        let mt = CommonPacketHeader::decode_full(&header[..COMMON_HEADER_SIZE])
            .ok()?
            .mt;
        let payload_length = if mt == MessageType::Data {
            usize::from(DataPacketHeader::decode_full(&header).ok()?.payload_length)
        } else {
            usize::from(ControlPacketHeader::decode_full(&header).ok()?.payload_length)
        };

        // Read the packet payload.
        let mut payload = vec![0u8; payload_length];
        socket.read_exact(&mut payload).await.ok()?;

        let mut packet = Vec::with_capacity(HEADER_SIZE + payload_length);
        packet.extend_from_slice(&header);
        packet.append(&mut payload);
        Some((packet, socket))
""")]
R['fr-read-errors']=[(K,"""        socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;

        Some((packet, socket))
""","""        match socket.read_exact(&mut packet[HEADER_SIZE..]).await {
            Ok(_) => Some((packet, socket)),
            Err(err) => {
                log::debug!("read failed: {}", err);
                None
            }
        }
"""),(K,"""            let Ok(core_packet) = CorePacket::try_from(self) else {
                return false;
            };
            core_packet.oid == CoreOpcodeId::DeviceReset
""","""            matches!(
                CorePacket::try_from(self),
                Ok(packet) if packet.oid == CoreOpcodeId::DeviceReset
            )
"""),(K,"""        socket.write_all(&packet).await?;

        Ok(socket)
""","""        let bytes = packet.as_slice();
        if let Err(err) = socket.write_all(bytes).await {
            return Err(err.into());
        }
        Ok(socket)
""")]
R['fr-pcap-words']=[(G,"""        file.write_all(&u32::to_le_bytes(0x00000006))?; // Block Type
        file.write_all(&u32::to_le_bytes(block_total_length))?;
        file.write_all(&u32::to_le_bytes(0))?; // Interface ID
        file.write_all(&u32::to_le_bytes((timestamp >> 32) as u32))?; // Timestamp (High)
        file.write_all(&u32::to_le_bytes(timestamp as u32))?; // Timestamp (Low)
        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
        file.write_all(packet)?;
        file.write_all(&vec![0; packet_data_padding])?;
        file.write_all(&u32::to_le_bytes(block_total_length))?; // Block Total Length
        Ok(())
""","""        let header: [u32; 7] = [
            0x00000006, // Block Type
            block_total_length,
            0,                         // Interface ID
            (timestamp >> 32) as u32,  // Timestamp (High)
            timestamp as u32,          // Timestamp (Low)
            packet.len() as u32,       // Captured Packet Length
            packet.len() as u32,       // Original Packet Length
        ];
        for word in header {
            file.write_all(&word.to_le_bytes())?;
        }
        file.write_all(packet)?;
        file.write_all(&[0; 4][..packet_data_padding])?;
        file.write_all(&block_total_length.to_le_bytes()) // Block Total Length
""")]
R['fr-pcap-inner']=[(G,"""        let mut file = self.file.lock().unwrap();

        // Wrap the packet inside an Enhanced Packet Block.
""","""        let mut file = match self.file.lock() {
            Ok(file) => file,
            Err(err) => panic!("{}", err),
        };
        let file: &mut std::fs::File = &mut file;
        let length = packet.len() as u32;

        // Wrap the packet inside an Enhanced Packet Block.
"""),(G,"""        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
""","""        file.write_all(&[length.to_le_bytes(), length.to_le_bytes()].concat())?; // Captured, original
"""),(G,"""            file: std::sync::Mutex::new(file),
            start_time: Instant::now(),
        })
    }
""","""            start_time: Instant::now(),
            file: file.into(),
        })
    }
""")]
R['fr-session-drop']=[(S,"""        self.stop_ranging_task();
        self.set_state(
            SessionState::SessionStateDeinit,
            ReasonCode::StateChangeWithSessionManagementCommands,
        );
    }
}""","""        let reason = ReasonCode::StateChangeWithSessionManagementCommands;
        self.set_state(SessionState::SessionStateDeinit, reason);
        if let Some(task) = std::mem::take(&mut self.ranging_task) {
            task.abort();
        }
    }
}"""),(S,"""        // No transition: ignore
        if session_state == self.state {
            return;
        }

        // Send status notification
        self.state = session_state;
""","""        // No transition: ignore
        let previous = std::mem::replace(&mut self.state, session_state);
        if previous == session_state {
            return;
        }

        // Send status notification
""")]
R['fr-init-insert']=[(D,"""        let status = if self.sessions.contains_key(&session_id) {
            uci::Status::ErrorSessionDuplicate
        } else if self.sessions.len() >= MAX_SESSION {
            uci::Status::ErrorMaxSessionsExceeded
        } else {
            self.sessions.insert(
                session_id,
                Session::new(session_id, session_type, self.handle, self.tx.clone()),
            );
            // Should not fail
            self.session_mut(session_id).unwrap().init();
            uci::Status::Ok
        };

        SessionInitRsp { status }
""","""        if self.session(session_id).is_some() {
            return SessionInitRsp {
                status: uci::Status::ErrorSessionDuplicate,
            };
        }
        if !(self.sessions.len() < MAX_SESSION) {
            return SessionInitRsp {
                status: uci::Status::ErrorMaxSessionsExceeded,
            };
        }

        let mut session = Session::new(session_id, session_type, self.handle, self.tx.clone());
        session.init();
        let replaced = self.sessions.insert(session_id, session);
        debug_assert!(replaced.is_none());

        SessionInitRsp {
            status: uci::Status::Ok,
        }
"""),(D,"""        let status = match self.sessions.get_mut(&session_id) {
            Some(session) => {
                if session.state == SessionState::SessionStateActive {
                    self.n_active_sessions -= 1;
                    if self.n_active_sessions == 0 {
                        self.set_state(DeviceState::DeviceStateReady);
                    }
                }
                self.sessions.remove(&session_id);
                uci::Status::Ok
            }
            None => uci::Status::ErrorSessionNotExist,
        };
        SessionDeinitRsp { status }
""","""        let Some(session) = self.sessions.remove(&session_id) else {
            return SessionDeinitRsp {
                status: uci::Status::ErrorSessionNotExist,
            };
        };
        let was_active = session.state == SessionState::SessionStateActive;
        drop(session);
        if was_active {
            self.n_active_sessions -= 1;
            if self.n_active_sessions == 0 {
                self.set_state(DeviceState::DeviceStateReady);
            }
        }
        SessionDeinitRsp {
            status: uci::Status::Ok,
        }
""")]
R['fr-data-restruct']=[(D,"""        match data.specialize() {
            Ok(DataPacketChild::DataMessageSnd(data_msg_snd)) => {
                let session_token = data_msg_snd.session_handle;
                Some(if let Some(session) = self.session_mut(session_token) {
                    session.data_message_snd(data_msg_snd)
                } else {
                    SessionDataTransferStatusNtf {
                        session_token,
                        status: DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected,
                        tx_count: 1, // TODO: support for retries?
                        uci_sequence_number: 0,
                    }
                    .try_into()
                    .unwrap()
                })
            }
            Ok(DataPacketChild::DataMessageRcv(data_msg_rcv)) => {
                // This function should not be passed anything besides DataMessageSnd
                let session_token = data_msg_rcv.session_handle;
                Some(
                    SessionDataTransferStatusNtf {
                        session_token,
                        status: DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat,
                        tx_count: 1, // TODO: support for retries?
                        uci_sequence_number: 0,
                    }
                    .try_into()
                    .unwrap(),
                )
            }
            _ => {
                log::error!("failed to parse incoming Data packet child");
                None
            }
        }
""","""        let (session_token, status) = match data.specialize() {
            Ok(DataPacketChild::DataMessageSnd(message)) => {
                let session_token = message.session_handle;
                match self.sessions.get_mut(&session_token) {
                    Some(session) => return Some(session.data_message_snd(message)),
                    None => (
                        session_token,
                        DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected,
                    ),
                }
            }
            // This function should not be passed anything besides DataMessageSnd
            Ok(DataPacketChild::DataMessageRcv(message)) => (
                message.session_handle,
                DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat,
            ),
            _ => {
                log::error!("failed to parse incoming Data packet child");
                return None;
            }
        };
        let ntf = SessionDataTransferStatusNtf {
            session_token,
            status,
            tx_count: 1, // TODO: support for retries?
            uci_sequence_number: 0,
        };
        Some(ControlPacket::try_from(ntf).unwrap())
""")]
R['fr-reset-fields']=[(D,"""        *self = Device::new(
            self.handle,
            self.mac_address,
            self.tx.clone(),
            self.pica_tx.clone(),
        );
        self.is_reset = true;
        self.init();
""","""        let fresh = Device {
            is_reset: true,
            ..Device::new(
                self.handle,
                self.mac_address,
                self.tx.clone(),
                self.pica_tx.clone(),
            )
        };
        let previous = std::mem::replace(self, fresh);
        drop(previous);
        self.init();
""")]
R['fr-connect-split']=[(L,"""        let handle = self.counter;
        self.counter += 1;

        log::debug!("[{}] Connecting device", handle);
""","""        let handle = self.next_handle();

        log::debug!("[{}] Connecting device", handle);
"""),(L,"""            let handle = self.counter;
            self.counter += 1;

            assert!""","""            let handle = self.next_handle();

            assert!"""),(L,"""    fn get_category(""","""    fn next_handle(&mut self) -> Handle {
        let next = self.counter + 1;
        std::mem::replace(&mut self.counter, next)
    }

    fn get_category("""),(L,"""            let pcapng_file = if let Some(dir) = pcapng_dir {
                let full_path = dir.join(format!("device-{}.pcapng", handle));
                log::debug!("Recording pcapng to file {}", full_path.as_path().display());
                pcapng::File::create(full_path)
                    .map_err(|err| log::error!("Failed to create pcapng file: {}", err))
                    .ok()
            } else {
                None
            };
""","""            let pcapng_file = pcapng_dir
                .map(|dir| dir.join(format!("device-{handle}.pcapng")))
                .and_then(|path| {
                    log::debug!("Recording pcapng to file {}", path.display());
                    match pcapng::File::create(&path) {
                        Ok(file) => Some(file),
                        Err(err) => {
                            log::error!("Failed to create pcapng file: {}", err);
                            None
                        }
                    }
                });
""")]
import defs2
R.update(defs2.R)
