//@ property=K06
// Who ends a call, with which reason, and which devices are told.
use crate::plat::*;
use prost::Message;
use ringrtc::{common::*, core::signaling::*, protobuf::rtp_data};

/// The hangup that a device was told over RTP, if it was: signaling tells it anyway.
fn by_rtp(w: &World, device: DeviceId) -> Option<(u64, i32, Option<u32>)> {
    let m = w.app.connection(ID, device)?.last_sent_rtp_message()?.hangup?;
    Some((m.id.unwrap(), m.r#type.unwrap(), m.device_id))
}
fn as_rtp(h: Hangup) -> (u64, i32, Option<u32>) {
    let (t, d) = match h {
        Hangup::Normal => (0, None),
        Hangup::AcceptedOnAnotherDevice(d) => (1, Some(d)),
        Hangup::DeclinedOnAnotherDevice(d) => (2, Some(d)),
        Hangup::BusyOnAnotherDevice(d) => (3, Some(d)),
        Hangup::NeedPermission(d) => (4, d),
    };
    (ID, t, d)
}
fn any_hangup(kind: u64, device: DeviceId) -> Hangup {
    match kind {
        0 => Hangup::Normal,
        1 => Hangup::AcceptedOnAnotherDevice(device),
        2 => Hangup::DeclinedOnAnotherDevice(device),
        3 => Hangup::BusyOnAnotherDevice(device),
        _ => Hangup::NeedPermission(Some(device)),
    }
}
/// Confirms all that is to be sent.
fn flush(w: &mut World) {
    for _ in 0..3 {
        w.sent();
    }
}
/// An outgoing call that rings on the devices 1 to n, of which one may have accepted.
fn ringing(n: u64, accepted: u64) -> World {
    let mut w = World::new();
    w.outgoing(2);
    for d in 1..=n {
        w.answered(d as u32);
    }
    flush(&mut w);
    if accepted != 0 {
        w.accepted(accepted as u32);
        flush(&mut w);
    }
    w
}

//@ harness bound="an_incoming_call_at_4_stages,5_kinds_of_hangup,any_sender_and_device_id"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_hangup_in() {
    let mut w = World::new();
    let stage = sx::pick(1, 4);
    w.incoming(stage);
    let kind = sx::pick(0, 4);
    let (sender, device) = (sx::u32(), sx::u32());
    w.cm.received_hangup(Peer(1), w.id(), hangup(sender, any_hangup(kind, device))).unwrap();
    sx::idle();
    // this device's own deed, or a device that the call is not with
    let ignored = (kind != 0 && device == 1) || (stage >= 2 && sender != 1);
    if ignored {
        sx::check!(w.active() == Some(ID) && w.app.ended(ID).is_empty());
        sx::cover!(kind == 1 && device == 1);
        sx::cover!(sender == 2);
    } else {
        let want = match kind {
            1 => CallEndReason::RemoteHangupAccepted,
            2 => CallEndReason::RemoteHangupDeclined,
            3 => CallEndReason::RemoteHangupBusy,
            _ => CallEndReason::RemoteHangup,
        };
        sx::check!(w.active().is_none() && w.app.ended(ID) == [want]);
    }
    flush(&mut w);
    sx::check!(w.app.hangups(ID).is_empty());
    sx::check!(by_rtp(&w, 1).is_none());
}

//@ harness bound="a_connected_incoming_call,any_kind_of_hangup_over_RTP,any_call_and_device_id"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_hangup_in_rtp() {
    let mut w = World::new();
    w.incoming(sx::pick(3, 4));
    let (id, device) = (sx::u64(), sx::u32());
    let kind = sx::pick(0, 6);
    let mut m = rtp_data::Message::default();
    m.hangup = Some(rtp_data::Hangup {
        id: Some(id),
        r#type: if kind == 6 { None } else { Some(kind as i32) },
        device_id: if sx::concb(sx::bool()) { Some(device) } else { None },
    });
    let device = m.hangup.as_ref().unwrap().device_id.unwrap_or(0);
    // the length of each field is enough for any value of it
    let mut c = w.conn(1).unwrap();
    c.inject_received_via_rtp_data(&encode(&m));
    sx::idle();
    if id != ID || ((1..=4).contains(&kind) && device == 1) {
        sx::check!(w.active() == Some(ID) && w.app.ended(ID).is_empty());
        sx::cover!(id == ID);
        sx::cover!(id != ID);
    } else {
        let want = match kind {
            1 => CallEndReason::RemoteHangupAccepted,
            2 => CallEndReason::RemoteHangupDeclined,
            3 => CallEndReason::RemoteHangupBusy,
            _ => CallEndReason::RemoteHangup,
        };
        sx::check!(w.active().is_none() && w.app.ended(ID) == [want]);
        sx::cover!();
    }
}
fn encode(m: &rtp_data::Message) -> Vec<u8> {
    m.encode_to_vec()
}

/// What the caller does when one of the callee's devices hangs up.
fn after_hangup(w: &mut World, n: u64, accepted: u64, sender: u32, kind: u64) {
    sx::idle();
    flush(w);
    let h = w.app.hangups(ID);
    if accepted != 0 {
        sx::check!(h == [Hangup::AcceptedOnAnotherDevice(accepted as u32)]);
        if sender as u64 != accepted {
            sx::check!(w.active() == Some(ID) && w.app.ended(ID).is_empty());
            sx::cover!();
            return;
        }
    }
    let (reason, tell) = match kind {
        0 => (CallEndReason::RemoteHangup, Some(Hangup::DeclinedOnAnotherDevice(sender))),
        4 => (
            CallEndReason::RemoteHangupNeedPermission,
            Some(Hangup::NeedPermission(Some(sender))),
        ),
        _ => (CallEndReason::RemoteHangup, None),
    };
    sx::check!(w.active().is_none() && w.app.ended(ID) == [reason]);
    if accepted != 0 {
        sx::cover!();
        return;
    }
    match tell {
        Some(t) => sx::check!(h == [t]),
        None => sx::check!(h.is_empty()),
    }
    for d in 1..=n as u32 {
        let got = by_rtp(w, d);
        sx::check!(got.is_none() || (sender != d && got == tell.map(as_rtp)));
    }
}

//@ harness bound="an_outgoing_call_ringing_on_0_to_3_devices_or_accepted_by_one,5_kinds_of_hangup,any_sender_and_device_id"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_hangup_out() {
    let n = sx::pick(0, 3);
    let accepted = sx::pick(0, n);
    let mut w = ringing(n, accepted);
    let kind = sx::pick(0, 4);
    let (sender, device) = (sx::u32(), sx::u32());
    w.cm.received_hangup(Peer(1), w.id(), hangup(sender, any_hangup(kind, device))).unwrap();
    after_hangup(&mut w, n, accepted, sender, kind);
}

//@ harness bound="an_outgoing_call_ringing_on_1_to_3_devices_or_accepted_by_one,5_kinds_of_hangup_over_RTP_from_each_device"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_hangup_out_rtp() {
    let n = sx::pick(1, 3);
    let accepted = sx::pick(0, n);
    let mut w = ringing(n, accepted);
    let sender = sx::pick(1, n) as u32;
    let kind = sx::pick(0, 4);
    let mut m = rtp_data::Message::default();
    m.hangup = Some(rtp_data::Hangup {
        id: Some(ID),
        r#type: Some(kind as i32),
        device_id: Some(sx::u32()),
    });
    let Some(mut c) = w.conn(sender) else {
        // gone with the acceptance
        sx::check!(accepted != 0 && accepted as u32 != sender);
        return;
    };
    c.inject_received_via_rtp_data(&encode(&m));
    after_hangup(&mut w, n, accepted, sender, kind);
}

//@ harness bound="an_outgoing_call_ringing_on_0_to_3_devices,a_busy_from_any_device"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_hangup_busy() {
    let n = sx::pick(0, 3);
    let mut w = ringing(n, 0);
    let sender = sx::u32();
    w.cm.received_busy(Peer(1), w.id(), ReceivedBusy { sender_device_id: sender }).unwrap();
    sx::idle();
    flush(&mut w);
    sx::check!(w.active().is_none() && w.app.ended(ID) == [CallEndReason::RemoteBusy]);
    let tell = Hangup::BusyOnAnotherDevice(sender);
    sx::check!(w.app.hangups(ID) == [tell]);
    for d in 1..=n as u32 {
        let got = by_rtp(&w, d);
        sx::check!(got.is_none() || (sender != d && got == Some(as_rtp(tell))));
    }
    sx::cover!(sender == 2);
}

/// The first device to accept gets the call; the others are told, and may accept no more.
//@ harness bound="an_outgoing_call_ringing_on_2_or_3_devices,one_or_two_of_which_accept_at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_accept_one() {
    let n = sx::pick(2, 3);
    let mut w = ringing(n, 0);
    let first = sx::pick(1, n) as u32;
    let second = sx::pick(1, n) as u32;
    let at_once = sx::concb(sx::bool());
    let mut a = w.conn(first).unwrap();
    let mut b = w.conn(second).unwrap();
    a.inject_received_accepted_via_rtp_data(w.id()).unwrap();
    if !at_once {
        sx::idle();
    }
    let _ = b.inject_received_accepted_via_rtp_data(w.id());
    sx::idle();
    flush(&mut w);
    sx::check!(w.active() == Some(ID) && w.app.ended(ID).is_empty());
    let one = w.cm.active_call().unwrap().active_device_id().unwrap();
    sx::check!(one == first || (at_once && one == second));
    sx::check!(w.app.has(ID, ApplicationEvent::RemoteAccepted) == 1);
    let tell = Hangup::AcceptedOnAnotherDevice(one);
    sx::check!(w.app.hangups(ID) == [tell]);
    for d in 1..=n as u32 {
        let pc = w.app.connection(ID, d).unwrap();
        let got = by_rtp(&w, d);
        sx::check!(got.is_none() || (d != one && got == Some(as_rtp(tell))));
        sx::check!(pc.outgoing_audio_enabled() == (d == one));
        sx::check!(w.conn(d).is_some() == (d == one));
    }
    sx::cover!(first != second);
}

/// Hanging up or declining tells every device, once.
//@ harness bound="either_direction,4_stages,hanging_up_or_dropping_the_call"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_hangup_local() {
    let out = sx::concb(sx::bool());
    let stage = sx::pick(1, 4);
    let two = out && stage == 3 && sx::concb(sx::bool());
    let mut w = World::new();
    if out {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    if two {
        w.answered(2);
    }
    flush(&mut w);
    let before = w.app.hangups(ID).len();
    let drop = sx::concb(sx::bool());
    if drop {
        w.cm.drop_call(w.id()).unwrap();
    } else {
        w.cm.hangup().unwrap();
    }
    sx::idle();
    flush(&mut w);
    sx::check!(w.active().is_none());
    let h = w.app.hangups(ID).split_off(before);
    if drop {
        sx::check!(h.is_empty());
        sx::cover!();
        return;
    }
    sx::check!(w.app.ended(ID) == [CallEndReason::LocalHangup]);
    // nobody knows of a call whose offer was never sent
    if out && stage == 1 {
        sx::check!(h.is_empty());
    } else {
        sx::check!(h == [Hangup::Normal]);
        sx::cover!();
    }
    for d in 1..=2 {
        let got = by_rtp(&w, d);
        sx::check!(got.is_none() || got == Some(as_rtp(Hangup::Normal)));
    }
}
