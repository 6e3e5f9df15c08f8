//@ property=K04
// Group rings: which the application hears of, when they end, and what other devices hear.
use crate::plat::*;
use prost::Message;
use ringrtc::{
    common::*,
    core::{
        call_manager::{OpaqueRingValidationError, validate_call_message_as_opaque_ring},
        group_call::{RingCancelReason, RingId, RingUpdate},
    },
    protobuf::signaling::{CallMessage, call_message::*},
    webrtc::media::{AudioTrack, VideoTrack},
};
use std::time::Duration;

const SELF: [u8; 2] = [1; 2];
const WHO: [[u8; 2]; 3] = [SELF, [2; 2], [3; 2]];
fn group(n: usize) -> Vec<u8> {
    vec![b'a' + n as u8]
}
fn intention(g: usize, r: i64, t: ring_intention::Type) -> CallMessage {
    CallMessage {
        ring_intention: Some(RingIntention {
            group_id: Some(group(g)),
            ring_id: Some(r),
            r#type: Some(t.into()),
        }),
        ..Default::default()
    }
}
fn response(g: usize, r: i64, t: ring_response::Type) -> CallMessage {
    CallMessage {
        ring_response: Some(RingResponse {
            group_id: Some(group(g)),
            ring_id: Some(r),
            r#type: Some(t.into()),
        }),
        ..Default::default()
    }
}
/// What the application heard of rings, and was asked to tell this user's other devices.
fn heard(w: &World, from: &mut usize) -> (Vec<(Vec<u8>, i64, Vec<u8>, RingUpdate)>, Vec<CallMessage>) {
    let (mut rings, mut sent) = (vec![], vec![]);
    let log = w.app.log();
    for r in log.iter().skip(*from) {
        match &r.ev {
            Ev::Ring(g, r, s, u) => rings.push((g.clone(), *r, s.clone(), *u)),
            Ev::Message(to, m) => {
                sx::check!(*to == SELF);
                sent.push(CallMessage::decode(&m[..]).unwrap());
            }
            Ev::ToGroup(..) => sx::check!(false),
            _ => {}
        }
    }
    *from = log.len();
    (rings, sent)
}
struct Open {
    group: usize,
    ring: i64,
    sender: usize,
    at: u64,
    /// it has been answered or taken back, or another came after it
    over: bool,
}
fn rings(steps: usize, groups: u64) {
    let mut w = World::new();
    w.cm.set_self_uuid(SELF.to_vec()).unwrap();
    let mut from = 0;
    let mut open: Vec<Open> = vec![];
    if groups > 1 && sx::concb(sx::bool()) {
        w.incoming(4);
        heard(&w, &mut from);
    }
    let two = |n| sx::conc(sx::pick(0, n)) as usize;
    for _ in 0..steps {
        let mut want = vec![];
        let mut sent = vec![];
        let op = two(5);
        let (g, r) = if op < 3 { (two(groups - 1), 5 + two(1) as i64) } else { (0, 5) };
        let busy = w.cm.busy();
        let close = |open: &mut Vec<Open>, by: Option<usize>| {
            for o in open.iter_mut() {
                if o.group == g && o.ring == r && by.is_none_or(|s| s == o.sender) {
                    o.over = true;
                }
            }
        };
        match op {
            0 => {
                let s = 1 + two(1);
                // sent up to 60 s ago, or longer
                let old = two(1) == 1;
                let age = Duration::new(60, old as u32);
                let m = intention(g, r, ring_intention::Type::Ring);
                let v = validate_call_message_as_opaque_ring(&m, age, |vg, vr| {
                    vg == group(g) && vr == RingId::from(r)
                });
                w.cm.received_call_message(WHO[s].to_vec(), 1, 1, m.encode_to_vec(), age).unwrap();
                let u = if old {
                    sx::check!(matches!(v, Err(OpaqueRingValidationError::Expired)));
                    RingUpdate::ExpiredRequest
                } else {
                    sx::check!(v.is_ok());
                    if busy {
                        sent.push(response(g, r, ring_response::Type::Busy));
                        close(&mut open, None);
                        sx::cover!();
                        RingUpdate::BusyLocally
                    } else {
                        open.iter_mut().filter(|o| o.group == g).for_each(|o| o.over = true);
                        open.push(Open { group: g, ring: r, sender: s, at: w.now, over: false });
                        RingUpdate::Requested
                    }
                };
                want.push((group(g), r, WHO[s].to_vec(), u));
            }
            1 => {
                let s = two(2);
                let m = if s == 0 {
                    // another device of this user
                    let (t, u) = [
                        (ring_response::Type::Accepted, Some(RingUpdate::AcceptedOnAnotherDevice)),
                        (ring_response::Type::Declined, Some(RingUpdate::DeclinedOnAnotherDevice)),
                        (ring_response::Type::Busy, Some(RingUpdate::BusyOnAnotherDevice)),
                        (ring_response::Type::Ringing, None),
                    ][two(3)];
                    if let Some(u) = u {
                        want.push((group(g), r, SELF.to_vec(), u));
                        close(&mut open, None);
                    }
                    response(g, r, t)
                } else if two(1) == 0 {
                    // others' answers do not concern this user
                    response(g, r, ring_response::Type::Accepted)
                } else {
                    // who rang takes it back
                    want.push((group(g), r, WHO[s].to_vec(), RingUpdate::CancelledByRinger));
                    close(&mut open, Some(s));
                    intention(g, r, ring_intention::Type::Cancelled)
                };
                let v = validate_call_message_as_opaque_ring(&m, Duration::ZERO, |_, _| true);
                sx::check!(matches!(v, Err(OpaqueRingValidationError::NotARing)));
                w.cm.received_call_message(WHO[s].to_vec(), 1, 1, m.encode_to_vec(), Duration::ZERO).unwrap();
            }
            2 => {
                let (why, t) = [
                    (None, None),
                    (Some(RingCancelReason::DeclinedByUser), Some(ring_response::Type::Declined)),
                    (Some(RingCancelReason::Busy), Some(ring_response::Type::Busy)),
                ][two(2)];
                w.cm.cancel_group_ring(group(g), r.into(), why).unwrap();
                sent.extend(t.map(|t| response(g, r, t)));
                close(&mut open, None);
            }
            3 => {
                sx::assume(busy);
                w.cm.hangup().unwrap();
                sx::idle();
                w.sent();
            }
            _ => {
                w.advance(if op == 4 { 30 } else { 60 } * 1_000_000_000);
            }
        }
        sx::idle();
        let (rings, messages) = heard(&w, &mut from);
        let mut rings = rings.into_iter().peekable();
        // each ring expires 60 s after, and is over
        for o in open.extract_if(.., |o| w.now >= o.at + 60_000_000_000) {
            let e = (group(o.group), o.ring, WHO[o.sender].to_vec(), RingUpdate::ExpiredRequest);
            // (the application knows of some that they were over before)
            if rings.peek() == Some(&e) {
                rings.next();
            } else {
                sx::check!(o.over);
            }
            sx::cover!();
        }
        sx::check!(rings.collect::<Vec<_>>() == want);
        sx::check!(messages == sent);
    }
    // who enters the call tells the other devices of the ring that is open, and of no other
    let busy = w.cm.busy();
    let client = w
        .cm
        .create_group_call_client(
            group(0),
            "".into(),
            vec![],
            None,
            0,
            None,
            AudioTrack::new(ringrtc::webrtc::Arc::null(), None),
            VideoTrack::new(ringrtc::webrtc::Arc::null(), None),
            None,
        )
        .unwrap();
    w.cm.connect(client);
    w.cm.join(client);
    sx::idle();
    let last = open.iter().rev().find(|o| o.group == 0 && !o.over);
    let want: Vec<_> =
        last.filter(|_| !busy).map(|o| response(0, o.ring, ring_response::Type::Accepted)).into_iter().collect();
    sx::check!(heard(&w, &mut from).1 == want);
    sx::cover!(!want.is_empty());
    // a call is rung about no more once this device is in it
    if !busy {
        let m = intention(1, 9, ring_intention::Type::Ring).encode_to_vec();
        w.cm.received_call_message(WHO[1].to_vec(), 1, 1, m, Duration::ZERO).unwrap();
        sx::idle();
        let (r, m) = heard(&w, &mut from);
        sx::check!(r == [(group(1), 9, WHO[1].to_vec(), RingUpdate::BusyLocally)]);
        sx::check!(m == [response(1, 9, ring_response::Type::Busy)]);
        w.cm.leave(client);
        sx::idle();
        sx::check!(!w.cm.busy());
    }
}
//@ harness bound="steps=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_rings() {
    rings(2, 2);
}
//@ harness bound="steps=3_groups=1" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_rings_3() {
    rings(3, 1);
}
/// Whatever is missing from a message, it is no ring for either.
//@ harness bound="fields=any_type=any_age=0-120s"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_ring_malformed() {
    let w = &mut World::new();
    w.cm.set_self_uuid(SELF.to_vec()).unwrap();
    let mut m = CallMessage::default();
    let t = sx::conc(sx::pick(0, 4)) as i32 - 1;
    let has = |n: u64| sx::concb(sx::bool());
    m.ring_intention = has(0).then(|| RingIntention {
        group_id: has(1).then(|| group(0)),
        ring_id: has(2).then_some(5),
        r#type: (t >= 0).then_some(t),
    });
    m.ring_response = has(3).then(|| response(0, 5, ring_response::Type::Accepted).ring_response.unwrap());
    let age = Duration::from_secs(sx::range(0, 120));
    let fine = sx::concb(sx::bool());
    let v = validate_call_message_as_opaque_ring(&m, age, |_, _| fine);
    w.cm.received_call_message(WHO[1].to_vec(), 1, 1, m.encode_to_vec(), age).unwrap();
    sx::idle();
    let (rings, sent) = heard(w, &mut 0);
    sx::check!(sent.is_empty() && rings.len() <= 1);
    let rung = rings.iter().any(|r| r.3 == RingUpdate::Requested);
    // what is announced is what rings, but for what the application refuses
    sx::check!(v.is_ok() == (rung && fine));
    sx::check!(!rung || age <= Duration::from_secs(60));
    if rung {
        sx::cover!();
    }
}
