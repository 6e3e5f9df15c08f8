//@ property=K05
// Messages that reach the call manager before their offer, or that belong to no call.
use crate::plat::*;
use ringrtc::{common::*, core::signaling::*};
use std::{net::SocketAddr, time::Duration};

/// A candidate's removal, which the connection shows when it takes it.
fn removal(port: u16) -> IceCandidate {
    IceCandidate::from_removed_address(SocketAddr::from(([1, 2, 3, 4], port))).unwrap()
}
fn ice_of(ports: &[u16]) -> ReceivedIce {
    ReceivedIce {
        ice: Ice { candidates: ports.iter().map(|p| removal(*p)).collect() },
        sender_device_id: 1,
    }
}
/// The removals that the call's connection has taken.
fn taken(w: &World, id: u64) -> Vec<u16> {
    let pc = w.app.connection(id, 1);
    pc.map_or(vec![], |pc| pc.removed_ice_candidates().iter().map(|a| a.port()).collect())
}

#[derive(Clone, Copy)]
struct Early {
    port: u16,
    hangup: bool,
    id: u64,
    peer: u8,
}

/// Messages arrive, then the offer of call 6 from peer 1.
fn early(n: u64, outgoing: bool, foreign: bool) {
    let mut w = World::new();
    if outgoing {
        w.outgoing(sx::pick(1, 3));
    }
    let mut all = vec![];
    for i in 0..n {
        let (id, peer) = match if foreign { sx::pick(0, 2) } else { 0 } {
            0 => (6, 1),
            1 => (6, 2),
            _ => (4, 1),
        };
        let m = Early { port: 100 + i as u16, hangup: sx::concb(sx::bool()), id, peer };
        all.push(m);
        if m.hangup {
            w.cm.received_hangup(Peer(peer), CallId::new(id), hangup(1, Hangup::Normal)).unwrap();
        } else {
            w.cm.received_ice(Peer(peer), CallId::new(id), ice_of(&[m.port])).unwrap();
        }
        sx::idle();
    }
    w.cm.received_offer(Peer(1), CallId::new(6), offer(1, Duration::ZERO)).unwrap();
    sx::idle();
    sx::check!(w.app.count(6, |e| matches!(e, Ev::Start(..))) == 1);
    let over = w.app.ended(6);
    sx::check!(over.is_empty() || over == [CallEndReason::RemoteHangup]);
    if over.is_empty() {
        sx::check!(w.active() == Some(6));
        proceed(&mut w.cm, 6);
        sx::idle();
        // later ones join the earlier
        w.cm.received_ice(Peer(1), CallId::new(6), ice_of(&[99])).unwrap();
        sx::idle();
        sx::check!(w.active() == Some(6));
    }
    let mut taken = taken(&w, 6);
    // nothing of another peer or call
    sx::check!(!over.is_empty() || taken.pop() == Some(99));
    let own: Vec<_> = all.iter().filter(|m| m.id == 6 && m.peer == 1).collect();
    let mut rest = own.iter();
    for port in &taken {
        sx::check!(rest.any(|m| m.port == *port && !m.hangup));
    }
    if !over.is_empty() {
        sx::check!(own.iter().any(|m| m.hangup));
        sx::check!(w.active().is_none());
        sx::cover!();
    }
    if own.len() == all.len() {
        sx::check!(own.iter().any(|m| m.hangup) != over.is_empty());
        sx::check!(!over.is_empty() || taken.len() == own.len());
        sx::cover!(over.is_empty());
    }
}

//@ harness bound="no_call,4_early_candidates_or_hangups_of_2_peers_and_2_calls,then_the_offer"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_early() {
    early(4, false, true)
}

//@ harness bound="an_outgoing_call_at_3_stages,3_early_candidates_or_hangups_of_2_peers_and_2_calls,then_the_winning_offer"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_early_glare() {
    early(3, true, true)
}

/// However many arrive, the last ones count.
//@ harness bound="1_to_3_or_29_to_32_early_messages_of_1_or_2_candidates"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_early_many() {
    let mut w = World::new();
    let n = [1, 2, 3, 29, 30, 31, 32][sx::pick(0, 6) as usize];
    let two = sx::concb(sx::bool());
    for i in 0..n {
        let ports = [100 + i, 200 + i];
        w.cm.received_ice(Peer(1), CallId::new(6), ice_of(&ports[..1 + two as usize])).unwrap();
        sx::idle();
    }
    w.cm.received_offer(Peer(1), CallId::new(6), offer(1, Duration::ZERO)).unwrap();
    sx::idle();
    proceed(&mut w.cm, 6);
    sx::idle();
    let taken = taken(&w, 6);
    let mut want = vec![];
    for i in n.saturating_sub(30)..n {
        want.push(100 + i);
        if two {
            want.push(200 + i);
        }
    }
    sx::check!(taken == want);
    sx::cover!(n > 30);
    sx::cover!(n < 30);
}

/// A message of another peer, or of another call, leaves the call alone.
//@ harness bound="either_direction,4_stages,any_of_4_messages_of_another_peer_or_call,any_sender_device"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_stranger() {
    let mut w = World::new();
    let stage = sx::pick(1, 4);
    if sx::concb(sx::bool()) {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    w.sent();
    let before = w.app.log().len();
    let (id, peer) = [(ID, 2), (6, 1), (6, 2)][sx::pick(0, 2) as usize];
    let (id, peer) = (CallId::new(id), Peer(peer));
    let state = w.cm.active_call().unwrap().state().unwrap();
    let device = sx::conc(sx::range(1, 2)) as u32;
    match sx::pick(0, 3) {
        0 => w.cm.received_answer(peer, id, answer(device)).unwrap(),
        1 => w.cm.received_ice(peer, id, ice_of(&[100])).unwrap(),
        2 => {
            let h = [
                Hangup::Normal,
                Hangup::AcceptedOnAnotherDevice(2),
                Hangup::DeclinedOnAnotherDevice(2),
                Hangup::BusyOnAnotherDevice(2),
                Hangup::NeedPermission(Some(2)),
            ][sx::pick(0, 4) as usize];
            w.cm.received_hangup(peer, id, hangup(device, h)).unwrap()
        }
        _ => w.cm.received_busy(peer, id, ReceivedBusy { sender_device_id: device }).unwrap(),
    }
    sx::idle();
    sx::check!(w.active() == Some(ID));
    sx::check!(w.cm.active_call().unwrap().state().unwrap() == state);
    sx::check!(w.app.log().len() == before);
    sx::check!(taken(&w, ID).is_empty());
    if stage == 1 {
        proceed(&mut w.cm, ID);
        sx::idle();
        sx::check!(w.active() == Some(ID) && taken(&w, ID).is_empty());
        sx::cover!();
    }
}
