#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DEV, SES, LIB, APP, PKT, PCAP, HTTP, PDL = ("src/device.rs", "src/session.rs", "src/lib.rs", "src/app_config.rs",
    "src/packets.rs", "src/pcapng.rs", "src/bin/http-server/main.rs", "src/uci_packets.pdl")
T2 = "The repository runs two scripted end-to-end scenarios (one ranging, one data transfer) and unit tests of MAC addresses and positions; "

p("C01", "No host input, disconnection or race panics the UCI subsystem",
  "Whatever bytes a host sends, in whatever device and session state, and whenever hosts disconnect, no handler of the emulator's command loop and no task serving a host panics. Malformed, unknown or unsupported commands and commands that are illegal in the current state are answered with an error status (or, for non-commands and data packets, logged or answered with a notification) and the emulator keeps serving every host.",
  ["inputs", "histories", "schedules"], "every byte string received as a packet, every reachable device/session state, every order of connection, disconnection, timer and command events",
  T2 + "each sends only well-formed commands in the expected order; a panic needs a specific malformed packet, state or late timer event.",
  [DEV, LIB, SES, APP, PKT], [("command dispatch with error responses", "Device::receive_packet, Device::receive_command"), ("late timer events ignored", "Pica::ranging"), ("config parsing returns errors", "AppConfig::set")])
p("C02", "Session state machine admits only the legal transitions",
  "A session is created in state INIT by an accepted SESSION_INIT; it moves INIT to IDLE only by an accepted SET_APP_CONFIG, IDLE to ACTIVE only by an accepted SESSION_START, ACTIVE to IDLE only by SESSION_STOP, an in-band stop request or the emptying of its multicast list, and it disappears only by SESSION_DEINIT, device reset or disconnection. SESSION_START outside IDLE is refused with ERROR_SESSION_NOT_CONFIGURED, SESSION_STOP outside ACTIVE with ERROR_SESSION_ACTIVE, SET_APP_CONFIG outside INIT and ACTIVE with REJECTED, and a refused command changes no session or device state.",
  ["histories", "inputs"], "every command in every session state, hence every history of commands",
  T2 + "they follow one legal path and never issue a command in a wrong state.",
  [DEV, SES, LIB], [("state guards", "Device::session_start/session_stop/session_set_app_config"), ("single state setter", "Session::set_state")],
  state=[("session state", "INIT, IDLE, ACTIVE", "Session::state")])
p("C03", "Every session state change is notified exactly once, with its reason",
  "Each change of a session's state queues to the owning host exactly one SESSION_STATUS_NTF carrying that session's id and the new state, with reason STATE_CHANGE_WITH_SESSION_MANAGEMENT_COMMANDS for host commands, SESSION_STOPPED_DUE_TO_INBAND_SIGNAL for an in-band stop and ERROR_INVALID_NUM_OF_CONTROLEES when the multicast list became empty; removing a session (deinit, reset, disconnect) queues one with state DEINIT. No SESSION_STATUS_NTF is queued when the state did not change.",
  ["histories", "inputs"], "every command and event in every session state",
  T2 + "they observe five of the notifications on the legal path and cannot exclude a missing, duplicated or misattributed one elsewhere.",
  [SES, DEV, LIB], [("notification on change", "Session::set_state"), ("deinit on drop", "Drop for Session")], observe=["host packet channel"])
p("C04", "The ranging timer runs exactly while its session is ACTIVE",
  "A session owns a running ranging timer if and only if it is ACTIVE: the timer is started on SESSION_START with the configured ranging duration in milliseconds and targets exactly that device and session, and it is cancelled on every way out of ACTIVE (stop, in-band stop, emptied multicast list, deinit, reset, disconnection). A session never has two timers.",
  ["histories", "schedules"], "every history of commands and events entering and leaving the ACTIVE state",
  T2 + "a leaked timer shows only after a particular exit from ACTIVE followed by waiting, which no test does.",
  [DEV, SES, LIB], [("timer task handle", "Session::ranging_task, Session::stop_ranging_task"), ("abort on drop", "Drop for Session")])
p("C05", "Device is ACTIVE exactly while it has an active session",
  "After reset a device is READY or ACTIVE, and it is ACTIVE if and only if at least one of its sessions is ACTIVE; its count of active sessions is always exact, including across deinit, in-band stop, multicast emptying and reset. Each change of the device state queues exactly one CORE_DEVICE_STATUS_NTF with the new state to its host, and none is queued without a change; the creation and a completed reset of a device count as a change to READY.",
  ["histories"], "every history of commands and events over any number of sessions",
  T2 + "they use a single session per device, so the count never exceeds one and most exits are not exercised.",
  [DEV, LIB], [("active session counter", "Device::n_active_sessions"), ("notification on change", "Device::set_state")])
p("C06", "Nothing but reset works before reset, and reset restores a fresh device",
  "Until a device has received CORE_DEVICE_RESET every other well-formed command is answered with a CORE_DEVICE_STATUS_NTF in state ERROR and has no effect (a command that cannot be decoded may be answered with its UNKNOWN_GID or UNKNOWN_OID response instead). An accepted reset answers OK, removes all sessions (stopping their timers), restores default configuration and READY state, and preserves only the device's identity (handle, MAC address and connection); afterwards commands are served.",
  ["histories", "inputs"], "every command before the first reset, and a reset in every device state",
  T2 + "they reset once, first, on a fresh device.",
  [DEV], [("reset gate", "Device::receive_command"), ("reset", "Device::core_device_reset")])
p("C07", "Each command gets exactly one response, for its own GID and OID",
  "Every command packet received after reset results in exactly one response to the same host, with the command's group and opcode (UNKNOWN_GID for an unknown group, UNKNOWN_OID for an opcode that is unknown, unsupported or whose command is malformed), queued before any notification the command causes. Responses and notifications received from a host, and packets for unknown devices, produce no output and no state change.",
  ["inputs", "histories"], "every command byte string in every state",
  T2 + "they check the response to about ten well-formed commands.",
  [DEV, LIB], [("dispatch", "Device::receive_packet, Device::receive_command"), ("delayed notifications", "tokio::spawn + sleep in set_state")], observe=["host packet channel"])
p("C08", "Session table: creation, lookup, counting and removal are consistent",
  "SESSION_INIT creates a session with the requested id and type and the default configuration unless the id is already in use (ERROR_SESSION_DUPLICATE) or 255 sessions exist (ERROR_MAX_SESSIONS_EXCEEDED), and a refused init leaves every existing session untouched. Every session command naming an id that does not exist is answered ERROR_SESSION_NOT_EXIST without effect, SESSION_DEINIT removes exactly the named session, SESSION_GET_COUNT reports the number of sessions and SESSION_GET_STATE the named session's state.",
  ["histories", "inputs"], "every session id and every history of init/deinit",
  T2 + "they never create a duplicate session, reach the limit, or name an unknown session.",
  [DEV], [("session map", "Device::sessions"), ("init/deinit", "Device::session_init/session_deinit")])
p("C09", "SET_APP_CONFIG is all-or-nothing and enforces mandatory parameters",
  "SET_APP_CONFIG applies every parameter of the command in order, or changes nothing at all: if any parameter is invalid the answer is INVALID_PARAM listing exactly the invalid parameters, if after the command DEVICE_ROLE, MULTI_NODE_MODE, RANGING_ROUND_USAGE, DEVICE_MAC_ADDRESS or SCHEDULE_MODE would still be unset the answer is REJECTED, (either answer if both apply), and in both cases the stored configuration and session state are unchanged. While the session is ACTIVE a command containing AOA_RESULT_REQ is refused as a whole with ERROR_SESSION_ACTIVE; on success the status is OK with an empty list.",
  ["inputs", "histories"], "every list of parameters, valid or not, in every session state",
  T2 + "they send one valid parameter list.",
  [DEV, APP], [("copy, set, then commit", "Device::session_set_app_config"), ("parameter parsing", "AppConfig::set")])
p("C10", "An application parameter that was set is read back unchanged",
  "For every application configuration parameter identifier the emulator accepts, setting it to a byte string and then reading it returns the same byte string (a 4-byte UWB_INITIATION_TIME is returned zero-extended to 8 bytes), and setting one parameter changes the read-back value of no other parameter. An identifier that cannot be set cannot be read, a value of the wrong length or outside the parameter's enumeration is refused, and a refused value changes nothing. In a new session every parameter reads as its FiRa default as recorded in AppConfig::default (for example SLOT_DURATION 2400, RANGING_DURATION 200 ms, CHANNEL_NUMBER 9, FAR_PROXIMITY_CONFIG 20000, SLOTS_PER_RR 25), and a parameter without a default cannot be read before it is set.",
  ["inputs"], "every parameter identifier and every value byte string",
  T2 + "no test reads a parameter back.",
  [APP], [("sibling accessors", "AppConfig::set, AppConfig::get"), ("default values", "AppConfig::default")])
p("C11", "Device configuration, capability and information commands answer truthfully",
  "CORE_SET_CONFIG stores LOW_POWER_MODE, refuses DEVICE_STATE as READ_ONLY and any other identifier as INVALID_PARAM, applies the valid parameters, lists exactly the refused ones and answers OK only when none was refused; CORE_GET_CONFIG returns the current value of every requested parameter, or INVALID_PARAM with exactly the unavailable identifiers, each with an empty value. CORE_GET_DEVICE_INFO, CORE_GET_CAPS_INFO, ANDROID_GET_POWER_STATS and ANDROID_SET_COUNTRY_CODE answer OK and the first three change nothing; the device information is UCI 2.0, MAC 1.3.0, PHY 1.3.0 and test 1.1 without vendor data, and the capability answer lists each capability of DEFAULT_CAPS_INFO exactly once with its complete value.",
  ["inputs", "histories"], "every list of parameter identifiers and values, in every state after reset",
  T2 + "they send one GET_DEVICE_INFO and one SET_CONFIG with fixed content.",
  [DEV], [("core config handlers", "Device::core_set_config, Device::core_get_config")])
p("C12", "Multicast list updates respect limits, uniqueness and preconditions",
  "A multicast list update is refused with REJECTED and without effect unless the session is IDLE or ACTIVE and configured as a one-to-many controller, and with SYNTAX_ERROR and without effect if its controlee list does not parse for its action. Otherwise adding appends each new short address once, refuses an address already present (ERROR_ADDRESS_ALREADY_PRESENT) and an addition when the list holds 8 or more (ERROR_MULTICAST_LIST_FULL), refuses key-carrying actions unless STS_CONFIG is provisioned-for-responder; removing deletes exactly the named addresses and reports absent ones as ERROR_ADDRESS_NOT_FOUND; the reported overall status is OK only if no controlee failed and the number of controlees always equals the list length.",
  ["inputs", "histories"], "every update command in every session state and configuration",
  T2 + "no test updates a multicast list.",
  [DEV], [("update handler", "Device::session_update_controller_multicast_list")])
p("C13", "In-band stop requests reach exactly the removed controlees' sessions",
  "Removing a controlee from a multicast list requests, for that address and that session id, an in-band stop exactly as many times as the session's in-band termination attempt count, and only for addresses that were on the list. Processing such a request stops exactly the ACTIVE sessions with that id whose device address is the requested one, on whichever device they live, and changes nothing else.",
  ["histories", "inputs", "schedules"], "every removal command, and every population of devices and sessions at the time the request is processed",
  T2 + "no test removes a controlee.",
  [DEV, LIB], [("request", "Device::session_update_controller_multicast_list"), ("handling", "Pica::stop_controlee_ranging")])
p("C14", "Ranging reports contain exactly the measurable peers, with their own data",
  "A ranging round of an ACTIVE session reports, if session info notifications are enabled, one SESSION_INFO_NTF to the session's host with its sequence number and session id, containing one measurement for each anchor on its destination list and for each other device with an ACTIVE session of the same id whose role and type differ and whose address lists name each other, provided the estimator yields a measurement in both directions and the peer address is a short address. Each measurement carries that peer's address, the distance and angles estimated from the reporting device to the peer, and as destination angles those estimated from the peer back.",
  ["histories", "configurations"], "every population of anchors, devices, sessions and configurations",
  T2 + "the ranging test checks one fixed two-device constellation.",
  [LIB, DEV, APP], [("ranging round", "Pica::ranging, make_measurement"), ("peer compatibility", "Device::can_start_ranging, AppConfig::is_compatible_for_ranging")])
p("C15", "In-band data is delivered exactly, once, and only to entitled peers",
  "Data sent by a host for a session of ranging-and-in-band-data type is appended in order to that session's buffer and acknowledged by a credit notification, unless the buffer would exceed what one delivery can carry; data for another session type or an unknown session is refused with the corresponding status notification and buffers nothing. In each round of an ACTIVE initiator session of that type the buffered bytes are sent to every other device with an ACTIVE responder session of the same id and type, carrying the session id and the sender's address, and to nobody else, after which the buffer is empty.",
  ["histories", "inputs"], "every sequence of data packets and ranging rounds, every population of peers",
  T2 + "the data test sends one payload between two devices.",
  [LIB, SES, DEV], [("buffering", "Session::data_message_snd"), ("delivery", "Pica::ranging"), ("entitlement", "Device::can_start_data_transfer/can_receive_data_transfer")])
p("C16", "Ranging sequence numbers count the session's reports without gaps",
  "The sequence number of a new session is 0; each SESSION_INFO_NTF carries the current number, which then increases by exactly one, and nothing else changes it. SESSION_GET_RANGING_COUNT reports the current number of the named session.",
  ["histories"], "every history of rounds and commands",
  T2 + "the ranging test looks at the first report only.",
  [LIB, DEV, SES], [("counter", "Session::sequence_number")])
p("C17", "Outgoing packets are segmented losslessly and within size limits",
  "Every packet queued for a host is written as segments of at most 255 payload bytes (control) or 1024 (data), in order, each with the original header except for its own payload length and boundary flag, which is 'not complete' on all segments but the last and 'complete' on the last. The payloads of the segments concatenate to exactly the payload of the packet.",
  ["inputs"], "every packet of every length",
  T2 + "no packet in them exceeds one segment.",
  [LIB, PKT], [("segmentation loop", "Pica::write_routine")])
p("C18", "Incoming byte streams are framed and reassembled losslessly",
  "Reading from a host consumes exactly the 4-byte header and then exactly the payload length announced by the header (16-bit for data, 8-bit for control) per segment. Control segments are concatenated in order, keeping the first header, until a segment marked complete arrives, data segments are passed on individually, each complete packet is forwarded once, for the host's own device, and a truncated or unparsable segment ends that connection only.",
  ["inputs", "fault_sequences"], "every byte stream, segment sequence and truncation",
  T2 + "no test sends a segmented or truncated packet.",
  [PKT, LIB], [("framing", "packets::uci::read"), ("reassembly", "Pica::read_routine")])
p("C19", "Handles are never reused and anchor addresses are unique",
  "Every device and every anchor receives a handle that was never given to another device or anchor, and a device is only ever found under its own handle. Creating an anchor whose address belongs to an existing anchor or connected device fails with DeviceAlreadyExists and creates nothing, destroying an unknown anchor fails with DeviceNotFound, and the requester always receives the answer, with the anchor's handle on success.",
  ["histories"], "every history of connections, disconnections, anchor creations and destructions",
  "No test creates an anchor or disconnects and reconnects a device.",
  [LIB], [("handle counter", "Pica::counter"), ("category lookup", "Pica::get_category"), ("anchor commands", "Pica::create_anchor, Pica::destroy_anchor")])
p("C20", "Connections and disconnections are paired, announced and cleaned up",
  "Each added device announces exactly one Connected event with its handle and MAC address before it is usable, and when its stream or sink ends in any way its connection task requests its disconnection exactly once. A disconnection removes the device with all its sessions and timers and announces exactly one Disconnected event with the same handle and address; a repeated or unknown disconnection does nothing.",
  ["schedules", "fault_sequences", "histories"], "every way a connection can end, in every state",
  T2 + "they never check events nor what is left after a disconnection.",
  [LIB], [("connection task", "Pica::add_device"), ("disconnect", "Pica::disconnect")])
p("C21", "The event loop never blocks and holds no lock across an await",
  "Processing one command of the emulator never waits for another task: no handler reachable from the command dispatch performs blocking or sleeping calls, waits for channel capacity or responses, or acquires a lock twice, so every command terminates. The event loops dispatch every command they receive exactly once and in order, a new emulator starts empty, and the channels it hands out are its own. No lock guard of the library or the HTTP server is held across an await point or across a call that can acquire the same lock.",
  ["schedules"], "every call path from command dispatch and every suspension point of every async function",
  "A deadlock or stall needs a particular interleaving or full channel, which the two scripted scenarios do not produce.",
  [LIB, DEV, SES, PCAP, HTTP], [("delayed work is spawned", "tokio::spawn in device.rs/session.rs"), ("unbounded host channel", "Device::tx"), ("scoped guards", "Context::* in the HTTP server")])
p("C22", "Packet captures are well-formed pcapng files",
  "A capture file starts with one section header block and one interface description block and then contains only complete enhanced packet blocks; in every block both length fields equal the number of bytes written for the block and are multiples of four, and the captured and original length fields equal the packet length. Blocks written by concurrent directions never interleave and partial writes are never silently accepted.",
  ["inputs", "schedules"], "every packet length and every interleaving of the two directions",
  "No test enables packet capture.",
  [PCAP], [("block writer", "pcapng::File::create, pcapng::File::write")])
p("C23", "Every packet exchanged with a host is captured once, as exchanged",
  "When capture is enabled for a device, each segment received from the host is recorded exactly once, unmodified and before it is acted upon, and each segment written to the host is recorded exactly once, exactly as written and before it is written. A segment that is not recorded because recording failed is not exchanged either: the connection ends.",
  ["inputs", "fault_sequences"], "every packet in both directions",
  "No test enables packet capture.",
  [LIB, PCAP], [("recording in both routines", "Pica::read_routine, Pica::write_routine")])
p("C24", "HTTP commands map to the right effect, event and status",
  "create-anchor and destroy-anchor submit exactly one command for the requested address and answer 200 with the scene updated under the returned handle and one device-added or device-removed event, 409 if it already exists, 404 if it does not, 500 without an answer; init-uci-device and set-position move exactly the device with the requested address and emit device-updated plus both neighbor-updated directions for every other device, or answer 404 without effect; unparsable addresses or bodies answer 406 without effect, unknown paths 404. The scene gains a device on Connected or a created anchor, loses it on Disconnected or a destroyed anchor, and get-state reports exactly the scene. The estimator the emulator uses reports the measurement between the positions of the two devices in the scene, and nothing for unknown handles.",
  ["inputs", "histories"], "every request path, body and scene",
  "No test talks to the HTTP server.",
  [HTTP], [("routing", "http_request"), ("handlers", "Context::http_*"), ("event handling", "Context::handle_connection_events")])
p("C25", "No HTTP request, subscriber or event burst stops the HTTP server",
  "No request handler and no event handler of the HTTP server panics, in particular not when nobody is subscribed to events, so the shared scene lock is never poisoned. Lagging behind on emulator events does not end the server, and a failed or missing answer from the emulator yields an error status.",
  ["inputs", "schedules", "fault_sequences"], "every request, every subscription pattern, every event timing",
  "No test talks to the HTTP server.",
  [HTTP], [("event broadcast", "Context::events"), ("handlers", "Context::http_*, handle_connection_events")])
p("C26", "Python bindings and the emulator agree on the packet format",
  "Every enumeration value, packet field, field width and order, length or count prefix, and packet-identifying constant in the Python bindings equals its counterpart in the packet description from which the emulator's own parser is generated. Framing constants agree as well: header size, length field position, and boundary flag.",
  ["programs", "inputs"], "every enumeration, struct and packet declared in both",
  T2 + "they exercise about twenty of the hundred packets and a fraction of the enumeration values.",
  [PDL, "py/pica/pica/packets/uci.py", "py/pica/pica/__init__.py"], [("two independently committed definitions", "src/uci_packets.pdl, py/pica/pica/packets/uci.py")])
p("C27", "Web interface, API description and console use the server's actual interface",
  "Every HTTP path requested by the web interface, the console or described in the API document is served by the HTTP server, and every path the server routes is described. Every event the web interface listens to or the API document describes is emitted by the server under that name and with the fields the listener reads, every field read from an answer is written there, and every file the web page loads from the server is served. A JSON body sent by a client has every key the server requires, and a position's keys x, y, z, yaw, pitch, roll stand for the same component in what the server reads, in what it writes and in what the console sends. Every class, enumeration member, field and method of the Python bindings that the console and the Python client use exists, packets go to the send function for their kind, and the console's default ports are the server's.",
  ["programs"], "every request, event listener and asset reference in the clients",
  "No test runs the web interface, console commands or HTTP server.",
  [HTTP, "src/bin/http-server/position.rs", "static/index.html", "static/src/components/DeviceInfo.js", "static/openapi.yaml", "py/pica/console.py", "py/pica/pica/__init__.py"],
  [("routes and events", "http_request, Event::name, STATIC_FILES"), ("JSON", "Event, DeviceInformation, Position::serialize, PositionBody"), ("clients", "update_state, set_position, Device.pica_*")])
p("C28", "The Python client detects a closed connection instead of spinning",
  "Reading an exact number of bytes in the Python client either makes progress or raises: when the emulator closes the connection, the reader ends rather than looping forever. Reassembly in the client consumes exactly the announced payload of each segment and stops exactly at the segment marked complete.",
  ["fault_sequences", "inputs"], "every point at which the connection can be closed, every segment sequence",
  T2 + "they never let the emulator close the connection while reading.",
  ["py/pica/pica/__init__.py"], [("exact read", "Host._read_exact"), ("reassembly", "Host._read_packet")])
p("C29", "A host's commands affect only its own device and connection",
  "Processing a packet from one host changes the state of no other host's device or session and sends packets only to that host. A ranging round changes only the ranging session itself, and sends to other hosts only in-band data messages.",
  ["histories", "inputs"], "every command, every population of devices",
  T2 + "two devices are used, without checking that the idle one is unaffected.",
  [LIB, DEV], [("device ownership of sessions and channel", "Device::sessions, Device::tx"), ("round handling", "Pica::ranging")])
p("N01", "MAC address text conversion round-trips",
  "Parsing the text form of any short or extended MAC address and formatting the result yields the canonical upper-case colon-separated form of the same address, and any text that is not a 4 or 16 hex digit address is refused.",
  ["inputs"], "every string and every address", "Unit tests sample five strings.",
  ["src/mac_address.rs"], [("conversion", "TryFrom<String> for MacAddress, From<&MacAddress> for String")])
p("N02", "Range, azimuth and elevation are numerically correct",
  "For any two positions the reported distance is the Euclidean distance saturated to 16 bits and the azimuth and elevation are the angles of the other device in the first one's rotated frame, rounded to degrees, within [-180,180] and [-90,90].",
  ["inputs"], "every pair of positions", "Unit tests sample a few positions.",
  ["src/bin/http-server/position.rs"], [("geometry", "Position::compute_range_azimuth_elevation")])
p("N03", "Notifications arrive in causal order within bounded time",
  "Notifications caused by one command arrive at the host in the order session status before device status, and ranging rounds happen at the configured interval without drift.",
  ["schedules"], "every scheduling of the notification and timer tasks", "The order depends on 1 ms and 5 ms timers and on scheduling, of which a test sees one.",
  [SES, DEV], [("delays", "sleep in Session::set_state and Device::set_state")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
