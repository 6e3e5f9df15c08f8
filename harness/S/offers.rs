//@ property=K03
// What becomes of an incoming offer.
use crate::plat::*;
use ringrtc::{common::*, core::signaling::*};
use std::time::Duration;

fn kinds(app: &App, id: u64) -> Vec<Ev> {
    app.of(id)
}

/// An offer of any age meets nothing, or a call at any stage.
fn meets(dir: u64) {
    let mut w = World::new();
    let stage = sx::pick(1, 4);
    match dir {
        1 => w.incoming(stage),
        _ => w.outgoing(stage),
    }
    // the hangups for the callee's other devices
    w.sent();
    let before = w.app.of(ID).len();
    let id = [4, 6, 1 << 63 | 1][sx::pick(0, 2) as usize];
    let peer = sx::conc(sx::range(1, 2)) as u8;
    let device = sx::u32();
    let age = Duration::new(sx::range(0, 1 << 40), 0) + Duration::from_nanos(sx::range(0, 999_999_999));
    w.cm.received_offer(Peer(peer), CallId::new(id), offer(device, age)).unwrap();
    sx::idle();
    let e = kinds(&w.app, id);
    let started = |e: &[Ev]| matches!(e, [Ev::Start(CallDirection::Incoming, CallMediaType::Audio)]);
    let left_alone = w.active() == Some(ID) && w.app.of(ID).len() == before;
    if age > Duration::from_secs(60) {
        sx::check!(matches!(e[..], [Ev::Expired(a), Ev::Concluded] if a == age));
        sx::check!(left_alone);
        sx::cover!();
        return;
    }
    let known = if dir == 1 { stage >= 2 } else { stage == 4 };
    let rejected = |e: &[Ev]| {
        matches!(
            e,
            [Ev::Event(ApplicationEvent::ReceivedOfferWhileActive), Ev::Busy, Ev::Concluded]
        )
    };
    if peer != 1 || (known && device != 1) {
        sx::check!(rejected(&e) && left_alone);
        sx::cover!();
    } else if known && stage == 4 {
        // they call again: their last call must be over
        sx::check!(started(&e) && w.active() == Some(id));
        sx::check!(w.app.ended(ID) == [CallEndReason::RemoteReCall]);
        // they know already; the callee's other devices were told of the answer
        sx::check!(w.app.hangups(ID).iter().all(|h| matches!(h, Hangup::AcceptedOnAnotherDevice(1))));
        sx::check!(w.app.hangups(ID).len() == (dir == 2) as usize);
        sx::cover!();
    } else if id < ID {
        sx::check!(matches!(
            e[..],
            [Ev::Event(ApplicationEvent::ReceivedOfferWithGlare), Ev::Concluded]
        ));
        sx::check!(left_alone);
        sx::cover!();
    } else {
        sx::check!(started(&e) && w.active() == Some(id));
        sx::check!(w.app.ended(ID) == [CallEndReason::RemoteGlare]);
        let told = w.app.hangups(ID);
        // an offer that was never sent needs no hangup
        sx::check!(told.len() == (dir == 1 || stage >= 2) as usize);
        sx::check!(told.iter().all(|h| *h == Hangup::Normal));
        sx::cover!();
    }
}

//@ harness bound="no_call,any_age_and_device,3_call_ids"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_offer_idle() {
    let mut w = World::new();
    let age = Duration::new(sx::range(0, 1 << 40), 0) + Duration::from_nanos(sx::range(0, 999_999_999));
    let id = [0, 6, u64::MAX][sx::pick(0, 2) as usize];
    w.cm.received_offer(Peer(2), CallId::new(id), offer(sx::u32(), age)).unwrap();
    sx::idle();
    let e = kinds(&w.app, id);
    if age > Duration::from_secs(60) {
        sx::check!(matches!(e[..], [Ev::Expired(a), Ev::Concluded] if a == age));
        sx::check!(w.active().is_none() && !w.cm.busy());
        sx::cover!();
    } else {
        sx::check!(matches!(e[..], [Ev::Start(CallDirection::Incoming, CallMediaType::Audio)]));
        sx::check!(w.active() == Some(id) && w.cm.busy());
        sx::cover!();
    }
}

//@ harness bound="an_incoming_call_at_any_of_4_stages,offers_of_any_age_and_device_of_2_peers,3_call_ids"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_offer_in() {
    meets(1)
}

//@ harness bound="an_outgoing_call_at_any_of_4_stages,offers_of_any_age_and_device_of_2_peers,3_call_ids"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_offer_out() {
    meets(2)
}

/// Two users call each other: exactly one call survives, the same on both sides.
//@ harness bound="2_call_managers,4_call_ids_each,offers_crossing_at_any_moment"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_glare() {
    const IDS: [u64; 4] = [0, 5, 1 << 63, u64::MAX];
    sx::clock(1_000_000_000_000);
    let (app_a, mut a) = new();
    let (app_b, mut b) = new();
    let ia = IDS[sx::pick(0, 3) as usize];
    let ib = IDS[sx::pick(0, 3) as usize];
    a.create_outgoing_call(Peer(2), CallId::new(ia), CallMediaType::Audio, 1).unwrap();
    b.create_outgoing_call(Peer(1), CallId::new(ib), CallMediaType::Audio, 1).unwrap();
    sx::idle();
    proceed(&mut a, ia);
    proceed(&mut b, ib);
    sx::idle();
    sx::check!(app_a.count(ia, |e| matches!(e, Ev::Offer(_))) == 1);
    sx::check!(app_b.count(ib, |e| matches!(e, Ev::Offer(_))) == 1);
    // each confirms its offer before or after the other's arrives
    let early = sx::pick(0, 3);
    if early & 1 != 0 {
        a.message_sent(CallId::new(ia)).unwrap();
        sx::idle();
    }
    if early & 2 != 0 {
        b.message_sent(CallId::new(ib)).unwrap();
        sx::idle();
    }
    a.received_offer(Peer(2), CallId::new(ib), offer(1, Duration::ZERO)).unwrap();
    b.received_offer(Peer(1), CallId::new(ia), offer(1, Duration::ZERO)).unwrap();
    sx::idle();
    let active = |cm: &Cm| cm.active_call().ok().map(|c| c.call_id().as_u64());
    if ia == ib {
        sx::check!(active(&a).is_none() && active(&b).is_none());
        sx::check!(app_a.has(ia, ApplicationEvent::GlareHandlingFailure) == 1);
        sx::cover!();
    } else {
        let winner = ia.max(ib);
        sx::check!(active(&a) == Some(winner) && active(&b) == Some(winner));
        let (loser, app) = if ia < ib { (ia, &app_a) } else { (ib, &app_b) };
        sx::check!(app.ended(loser) == [CallEndReason::RemoteGlare]);
        let (other, app) = if ia < ib { (ia, &app_b) } else { (ib, &app_a) };
        sx::check!(app.has(other, ApplicationEvent::ReceivedOfferWithGlare) == 1);
        sx::check!(app.ended(other).is_empty());
        sx::cover!(ia < ib);
        sx::cover!(ia > ib);
    }
}
