//@ property=K07
// What the two sides of a connected call tell each other, and what media flows when.
use crate::plat::*;
use prost::Message;
use ringrtc::{
    common::{units::DataRate, *},
    core::{connection::*, signaling::*},
    protobuf::rtp_data,
    webrtc::{
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
        rtp,
        rtp_observer::RtpObserverTrait,
    },
};

fn some_bool() -> Option<bool> {
    [None, Some(false), Some(true)][sx::pick(0, 2) as usize]
}
fn status_events(w: &World) -> Vec<ApplicationEvent> {
    let of = |e: &Ev| match e {
        Ev::Event(
            e @ (ApplicationEvent::RemoteVideoEnable
            | ApplicationEvent::RemoteVideoDisable
            | ApplicationEvent::RemoteAudioEnable
            | ApplicationEvent::RemoteAudioDisable
            | ApplicationEvent::RemoteSharingScreenEnable
            | ApplicationEvent::RemoteSharingScreenDisable),
        ) => Some(*e),
        _ => None,
    };
    w.app.of(ID).iter().filter_map(of).collect()
}
fn as_events(s: SenderStatus) -> Vec<ApplicationEvent> {
    use ApplicationEvent::*;
    let either = |v: Option<bool>, on, off| v.map(|v| if v { on } else { off });
    [
        either(s.video_enabled, RemoteVideoEnable, RemoteVideoDisable),
        either(s.sharing_screen, RemoteSharingScreenEnable, RemoteSharingScreenDisable),
        either(s.audio_enabled, RemoteAudioEnable, RemoteAudioDisable),
    ]
    .into_iter()
    .flatten()
    .collect()
}
/// A call that rings or is connected, in either direction.
fn ringing(accepted: bool) -> World {
    let mut w = World::new();
    let stage = if accepted { 4 } else { 3 };
    if sx::concb(sx::bool()) {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    w.sent();
    w
}
fn accept(w: &mut World) {
    if w.cm.active_call().unwrap().direction() == CallDirection::Outgoing {
        w.accepted(1);
    } else {
        w.cm.accept_call(w.id()).unwrap();
        sx::idle();
    }
}

/// The latest status counts, whatever order the messages arrive in.
//@ harness bound="either_direction,3_statuses_with_any_64_bit_sequence_numbers_and_call_ids,the_call_accepted_after_any_of_them"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_status() {
    let mut w = ringing(false);
    let at = sx::pick(0, 2);
    let mut latest: Option<(u64, SenderStatus)> = None;
    let mut told = vec![];
    for i in 0..3 {
        if i == at {
            accept(&mut w);
            told.extend(latest.map_or(vec![], |l| as_events(l.1)));
        }
        let status = SenderStatus {
            video_enabled: some_bool(),
            sharing_screen: if i == 0 { some_bool() } else { None },
            audio_enabled: if i == 1 { some_bool() } else { None },
        };
        let (id, seq) = (sx::u64(), sx::u64());
        let mut c = w.conn(1).unwrap();
        c.inject_received_sender_status_via_rtp_data(CallId::new(id), status, seq).unwrap();
        sx::idle();
        if id == ID && latest.is_none_or(|l| seq > l.0) {
            if i >= at && latest.is_none_or(|l| l.1 != status) {
                told.extend(as_events(status));
            }
            latest = Some((seq, status));
        }
        sx::check!(status_events(&w) == told);
    }
    sx::cover!(told.len() > 2);
    sx::check!(w.active() == Some(ID));
}

/// The rate at which media is sent respects both sides and the route.
//@ harness bound="either_direction,any_3_of_limits_with_any_64_bit_values,routes,data_modes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_rate() {
    let mut w = ringing(true);
    let pc = w.app.connection(ID, 1).unwrap();
    let mut mode = 2_000_000;
    let mut remote: Option<(u64, u64)> = None;
    let mut relayed = false;
    for _ in 0..3 {
        let mut c = w.conn(1).unwrap();
        match sx::pick(0, 2) {
            0 => {
                let (seq, bps) = (sx::u64(), sx::u64());
                let id = sx::u64();
                c.inject_received_receiver_status_via_rtp_data(
                    CallId::new(id),
                    DataRate::from_bps(bps),
                    seq,
                )
                .unwrap();
                sx::idle();
                if id == ID && remote.is_none_or(|r| seq > r.0) {
                    remote = Some((seq, bps));
                }
            }
            1 => {
                let low = sx::concb(sx::bool());
                mode = if low { 300_000 } else { 2_000_000 };
                c.inject_update_data_mode(if low { DataMode::Low } else { DataMode::Normal })
                    .unwrap();
                sx::idle();
            }
            _ => {
                let (l, r) = (sx::concb(sx::bool()), sx::concb(sx::bool()));
                relayed = l || r;
                c.inject_ice_network_route_changed(NetworkRoute {
                    local_adapter_type: NetworkAdapterType::Wifi,
                    local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
                    local_relayed: l,
                    local_relay_protocol: TransportProtocol::Udp,
                    remote_relayed: r,
                })
                .unwrap();
                sx::idle();
            }
        }
        let mut want = mode.min(remote.map_or(u64::MAX, |r| r.1));
        if relayed {
            want = want.min(1_000_000);
        }
        let got = pc.max_bitrate_bps();
        // nothing to set as long as nothing was limited
        if got.is_none() {
            sx::check!(mode == 2_000_000 && remote.is_none() && !relayed);
        } else {
            sx::check!(got == Some(want.max(30_000) as i32));
            sx::cover!();
        }
    }
    sx::check!(w.active() == Some(ID));
}

/// What this side last said, which it repeats.
fn said(w: &World) -> Option<rtp_data::Message> {
    w.app.connection(ID, 1).unwrap().last_sent_rtp_message()
}

/// Each message has all that was said before, under a growing number.
//@ harness bound="either_direction,any_2_of_own_statuses_data_modes_and_seconds_that_pass"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_say() {
    let mut w = ringing(true);
    let incoming = w.cm.active_call().unwrap().direction() == CallDirection::Incoming;
    let mut last = said(&w);
    // the callee has accepted
    sx::check!(last.is_some() == incoming);
    if let Some(m) = &last {
        sx::check!(m.accepted == Some(rtp_data::Accepted { id: Some(ID) }) && m.hangup.is_none());
    }
    let mut status = (None, None, None);
    let mut rate = None;
    let mut mode = DataMode::Normal;
    for _ in 0..2 {
        let mut c = w.conn(1).unwrap();
        let mut changed = true;
        match sx::pick(0, 2) {
            0 => {
                let s = SenderStatus {
                    video_enabled: some_bool(),
                    sharing_screen: some_bool(),
                    audio_enabled: None,
                };
                status = (
                    s.video_enabled.or(status.0),
                    s.sharing_screen.or(status.1),
                    s.audio_enabled.or(status.2),
                );
                c.update_sender_status(s).unwrap();
            }
            1 => {
                let low = sx::concb(sx::bool());
                let m = if low { DataMode::Low } else { DataMode::Normal };
                changed = m != mode;
                mode = m;
                if changed {
                    rate = Some(if low { 300_000 } else { 2_000_000 });
                }
                c.inject_update_data_mode(m).unwrap();
            }
            _ => {
                w.advance(1_000_000_000);
                changed = false;
            }
        }
        sx::idle();
        let now = said(&w);
        if changed {
            let n = now.clone().unwrap();
            sx::check!(n.seqnum.unwrap() > last.as_ref().map_or(0, |l| l.seqnum.unwrap()));
            sx::check!(n.accepted.is_some() == incoming && n.hangup.is_none());
            if status != (None, None, None) {
                let s = n.sender_status.clone().unwrap();
                sx::check!(s.id == Some(ID));
                sx::check!((s.video_enabled, s.sharing_screen, s.audio_enabled) == status);
                sx::cover!();
            }
            match n.receiver_status.clone() {
                Some(r) => sx::check!(r.id == Some(ID) && r.max_bitrate_bps == rate),
                None => sx::check!(rate.is_none()),
            }
        } else {
            sx::check!(now == last);
        }
        last = now;
    }
}

/// Only packets of the data stream are taken, and none older than one taken before.
//@ harness bound="a_ringing_outgoing_call,2_packets_with_any_header,the_first_a_status_the_second_an_acceptance"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_data_packets() {
    let mut w = World::new();
    w.outgoing(3);
    let mut c = w.conn(1).unwrap();
    let head = || rtp::Header {
        pt: sx::u8(),
        seqnum: sx::u16(),
        timestamp: sx::u32(),
        ssrc: sx::u32(),
    };
    let ok = |h: &rtp::Header| h.pt == 101 && h.ssrc == 13;
    let a = head();
    let (a_ok, a_at) = (ok(&a), a.timestamp);
    let mut m = rtp_data::Message { seqnum: Some(1), ..Default::default() };
    m.sender_status =
        Some(rtp_data::SenderStatus { id: Some(ID), video_enabled: Some(true), ..Default::default() });
    c.handle_rtp_received(a, &m.encode_to_vec());
    let b = head();
    let (b_ok, b_at) = (ok(&b), b.timestamp);
    let m = rtp_data::Message { accepted: Some(rtp_data::Accepted { id: Some(ID) }), ..Default::default() };
    c.handle_rtp_received(b, &m.encode_to_vec());
    sx::idle();
    let taken = b_ok && (!a_ok || b_at >= a_at);
    sx::check!((w.app.has(ID, ApplicationEvent::RemoteAccepted) == 1) == taken);
    if taken {
        // the status was kept until now
        sx::check!((w.app.has(ID, ApplicationEvent::RemoteVideoEnable) == 1) == a_ok);
        sx::cover!(a_ok);
        sx::cover!(!a_ok);
    }
}

/// Bytes that are no message do nothing.
//@ harness bound="either_direction,ringing_or_connected,any_3_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_data_bytes() {
    let mut w = ringing(sx::concb(sx::bool()));
    let before = w.app.log().len();
    let state = w.cm.active_call().unwrap().state().unwrap();
    let n = sx::pick(0, 3) as usize;
    let bytes = sx::vec(n);
    let mut c = w.conn(1).unwrap();
    c.inject_received_via_rtp_data(&bytes);
    sx::idle();
    // too short for the call's id and anything else but an acceptance or hangup
    let m = rtp_data::Message::decode(&bytes[..]);
    let acts = m.is_ok_and(|m| {
        m.accepted.is_some_and(|a| a.id() == ID || state != CallState::ConnectedAndAccepted)
            || m.hangup.is_some_and(|h| h.id() == ID)
            || m.accepted.is_some()
    });
    if !acts {
        sx::check!(w.app.log().len() == before && w.active() == Some(ID));
        sx::cover!();
    }
}

/// No sound leaves this side before the call is accepted.
//@ harness bound="either_direction,4_stages,any_2_of_23_events"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_mute_until_accepted() {
    let mut w = World::new();
    let stage = sx::pick(1, 3);
    let out = sx::concb(sx::bool());
    if out {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    let mut accepted = false;
    for _ in 0..2 {
        let op = sx::pick(0, World::OPS - 1);
        // the user's acceptance or the other side's
        accepted |= op == if out { World::ACCEPTED } else { World::ACCEPT };
        w.step(op);
        sx::idle();
        for r in w.app.log() {
            if let Ev::Connection(_, pc) = r.ev {
                sx::check!(!pc.outgoing_audio_enabled() || (r.id == ID && accepted));
                sx::cover!(pc.outgoing_audio_enabled());
            }
        }
        sx::check!(accepted || w.app.count(ID, |e| matches!(e, Ev::MediaOn)) == 0);
    }
}
