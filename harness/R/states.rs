//@ property=T01
// What a call or connection may do in each state; ids and modes.
use ringrtc::common::units::DataRate;
use ringrtc::common::{
    CallConfig, CallDirection, CallId, CallMediaType, CallState as C, ConnectionState as N, DataMode,
};

const CALL: [C; 9] = [
    C::NotYetStarted,
    C::WaitingToProceed,
    C::ConnectingBeforeAccepted,
    C::ConnectingAfterAccepted,
    C::ConnectedBeforeAccepted,
    C::ConnectedAndAccepted,
    C::ReconnectingAfterAccepted,
    C::Terminating,
    C::Terminated,
];
const CONN: [N; 11] = [
    N::NotYetStarted,
    N::Starting,
    N::IceGathering,
    N::ConnectingBeforeAccepted,
    N::ConnectingAfterAccepted,
    N::ConnectedBeforeAccepted,
    N::IceFailed,
    N::ConnectedAndAccepted,
    N::ReconnectingAfterAccepted,
    N::Terminating,
    N::Terminated,
];

//@ harness bound="every_call_state"
#[unsafe(no_mangle)]
pub extern "C" fn hx_t_call() {
    let s = CALL[sx::range(0, 8) as usize];
    let over = s == C::Terminating || s == C::Terminated;
    let started = s != C::NotYetStarted;
    let accepted = s == C::ConnectingAfterAccepted
        || s == C::ConnectedAndAccepted
        || s == C::ReconnectingAfterAccepted;
    let connected = s == C::ConnectedBeforeAccepted
        || s == C::ConnectedAndAccepted
        || s == C::ReconnectingAfterAccepted;
    sx::check!(s.terminating_or_terminated() == over);
    sx::check!(s.accepted() == accepted);
    sx::check!(s.connected_or_reconnecting() == connected);
    sx::check!(s.active() == (accepted && connected));
    // accepted once, and only when there is a connection
    sx::check!(s.can_be_accepted_locally() == (connected && !accepted));
    sx::check!(s.can_receive_ice_candidates() == (started && !over));
    sx::check!(s.can_be_terminated_remotely() == (started && !over));
    // the other devices hear of a hangup only if they still ring
    sx::check!(s.should_propagate_hangup() == (started && !over && !accepted));
    // nothing to send before the start; whenever there is a connection, the other side is told
    sx::check!(started || !s.can_send_hangup_via_rtp());
    sx::check!(!connected || s.can_send_hangup_via_rtp());
    sx::cover!(over);
    sx::cover!(accepted && !connected);
}

//@ harness bound="every_connection_state"
#[unsafe(no_mangle)]
pub extern "C" fn hx_t_conn() {
    let s = CONN[sx::range(0, 10) as usize];
    let over = s == N::Terminating || s == N::Terminated;
    let started = s != N::NotYetStarted;
    let connecting = s == N::ConnectingBeforeAccepted || s == N::ConnectingAfterAccepted;
    let active = s == N::ConnectedAndAccepted || s == N::ReconnectingAfterAccepted;
    let connected = s == N::ConnectedBeforeAccepted || active;
    sx::check!(s.terminating_or_terminated() == over);
    sx::check!(s.connected_or_reconnecting() == connected);
    sx::check!(s.connecting_or_connected() == (connecting || connected));
    sx::check!(s.active() == active);
    // only with a remote description
    sx::check!(s.can_receive_ice_candidates() == (connecting || connected));
    sx::check!(s.can_send_ice_candidates() == (started && !over));
    // not when it is known to be accepted and connected, nor before or after the call
    sx::check!(!s.can_be_accepted_locally() || connecting || connected);
    sx::check!(s != N::ConnectedAndAccepted || !s.can_be_accepted_locally());
    sx::check!(s != N::ConnectedBeforeAccepted || s.can_be_accepted_locally());
    sx::check!(started || !s.can_send_hangup_via_rtp());
    sx::check!(!connected || s.can_send_hangup_via_rtp());
    sx::cover!(over);
    sx::cover!(connecting);
}

//@ harness bound="any_32-bit_value,any_custom_rate"
#[unsafe(no_mangle)]
pub extern "C" fn hx_t_modes() {
    let v = sx::u32() as i32;
    let m = DataMode::from_i32(v);
    sx::check!(m == if v == 0 { DataMode::Low } else { DataMode::Normal });
    sx::check!(m.max_bitrate().as_kbps() == if v == 0 { 300 } else { 2000 });
    let (a, b) = (sx::u64(), sx::u64());
    let c = DataMode::Custom {
        max_bitrate: DataRate::from_bps(a),
        max_group_call_receive_rate: DataRate::from_bps(b),
    };
    sx::check!(c.max_bitrate() == DataRate::from_bps(a));
    let small = sx::range(0, 1) as i32;
    let d = CallDirection::from_i32(small);
    let t = CallMediaType::from_i32(small);
    sx::check!(d as i32 == small && t as i32 == small);
    sx::check!((d == CallDirection::Outgoing) == (small == 1));
    sx::check!((t == CallMediaType::Video) == (small == 1));
    sx::cover!(v < 0);
    sx::cover!(v == 0);
}

fn hex(mut v: u64) -> Vec<u8> {
    let mut r = vec![];
    loop {
        r.push(b"0123456789abcdef"[(v & 15) as usize]);
        v >>= 4;
        if v == 0 {
            r.reverse();
            return r;
        }
    }
}

//@ harness bound="any_64-bit_id_and_any_of_4_device_ids"
#[unsafe(no_mangle)]
pub extern "C" fn hx_t_id() {
    let v = sx::u64();
    let id = CallId::from(v);
    sx::check!(id.as_u64() == v && u64::from(id) == v && CallId::from(v as i64) == id);
    sx::check!(CallId::new(v) == id);
    let other = sx::u64();
    sx::check!((CallId::new(other) == id) == (other == v));
    sx::check!((CallId::new(other).call_summary_hash() == id.call_summary_hash()) == (other == v));
    sx::cover!(other == v);
    sx::cover!(other != v);
}

//@ harness bound="ids_with_up_to_3_symbolic_digits_at_either_end,4_device_ids"
#[unsafe(no_mangle)]
pub extern "C" fn hx_t_id_text() {
    let low = sx::range(0, 4095);
    let v = if sx::concb(sx::bool()) { low } else { low << 52 | 0x0012_3456_789a_bcde & ((1 << 52) - 1) };
    let dev = [0u32, 1, 12, u32::MAX][sx::pick(0, 3) as usize];
    let id = CallId::new(v);
    let mut want = b"0x".to_vec();
    want.extend(hex(v));
    sx::check!(id.to_string().as_bytes() == want);
    want.push(b'-');
    want.extend(dev.to_string().as_bytes());
    sx::check!(id.format(dev).as_bytes() == want);
    sx::cover!(v == 0);
    sx::cover!(v >> 60 == 15);
}

/// Each setter of a call's settings sets that one and keeps the others.
//@ harness bound="4_setters,any_values"
#[unsafe(no_mangle)]
pub extern "C" fn hx_t_config() {
    let mut c = CallConfig {
        stats_interval_secs: sx::u16(),
        stats_initial_offset_secs: sx::u16(),
        call_summary_time_limit_secs: sx::u16(),
        enable_tcc_audio: sx::bool(),
        audio_rtcp_report_interval_ms: sx::u32() as i32,
        enable_vp9_encode: sx::bool(),
        enable_vp9_decode: sx::bool(),
        ..CallConfig::default()
    };
    c.audio_encoder_config.dred_duration = sx::u8();
    let mode = [DataMode::Low, DataMode::Normal];
    c.data_mode = mode[sx::pick(0, 1) as usize];
    let old = c.clone();
    let which = sx::pick(0, 3);
    let (m, on, dred) = (mode[sx::pick(0, 1) as usize], sx::bool(), sx::u8());
    let c = match which {
        0 => c.with_data_mode(m),
        1 => c.with_enable_vp9_encode(on),
        2 => c.with_enable_vp9_decode(on),
        _ => c.with_dred_duration(dred),
    };
    sx::check!(c.data_mode == if which == 0 { m } else { old.data_mode });
    sx::check!(c.enable_vp9_encode == if which == 1 { on } else { old.enable_vp9_encode });
    sx::check!(c.enable_vp9_decode == if which == 2 { on } else { old.enable_vp9_decode });
    let was = old.audio_encoder_config.dred_duration;
    sx::check!(c.audio_encoder_config.dred_duration == if which == 3 { dred } else { was });
    sx::check!(c.stats_interval_secs == old.stats_interval_secs);
    sx::check!(c.stats_initial_offset_secs == old.stats_initial_offset_secs);
    sx::check!(c.call_summary_time_limit_secs == old.call_summary_time_limit_secs);
    sx::check!(c.enable_tcc_audio == old.enable_tcc_audio);
    sx::check!(c.audio_rtcp_report_interval_ms == old.audio_rtcp_report_interval_ms);
    sx::cover!(which == 3);
}
