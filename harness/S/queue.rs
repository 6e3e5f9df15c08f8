//@ property=K02
// What the application is asked to send: one message at a time, in order, nothing lost or repeated.
use crate::plat::*;
use ringrtc::{common::*, core::signaling::*};
use std::time::Duration;

struct Q {
    w: World,
    /// candidates found so far, in order
    found: Vec<u8>,
    /// messages that the application has confirmed
    confirmed: usize,
    /// messages are taken to be sent at once
    at_once: bool,
    busies: u64,
}

fn messages(w: &World) -> Vec<Rec> {
    w.app.log().into_iter().filter(|r| r.ev.is_message()).collect()
}

impl Q {
    fn new(outgoing: bool, at_once: bool) -> Q {
        let mut w = World::new();
        if at_once {
            w.app.assume_sent();
        }
        if outgoing {
            w.outgoing(1);
        } else {
            w.incoming(1);
        }
        proceed(&mut w.cm, ID);
        sx::idle();
        let q = Q { w, found: vec![], confirmed: 0, at_once, busies: 0 };
        let m = messages(&q.w);
        sx::check!(m.len() == 1);
        sx::check!(matches!(m[0].ev, Ev::Offer(_)) == outgoing);
        sx::check!(matches!(m[0].ev, Ev::Answer(..)) != outgoing);
        q
    }
    fn device(&self) -> DeviceId {
        let c = self.w.cm.active_call();
        let Ok(c) = c else { return 0 };
        // outgoing candidates come from the connection that all answers share
        if c.direction() == CallDirection::Outgoing { 0 } else { 1 }
    }
    fn active(&self) -> bool {
        self.w.active() == Some(ID)
    }
    fn step(&mut self, ops: u64) {
        let m = messages(&self.w);
        let waiting = m.len() - self.confirmed;
        match sx::pick(0, ops - 1) {
            0 => {
                sx::assume(self.active());
                let call = self.w.cm.active_call().unwrap();
                let mut c = if self.device() == 0 {
                    call.get_parent_connection().unwrap()
                } else {
                    call.get_connection(1).unwrap()
                };
                let n = self.found.len() as u8 + 1;
                self.found.push(n);
                c.inject_local_ice_candidate(candidate(n), true, "c", None).unwrap();
            }
            1 => {
                sx::assume(waiting > 0 && !self.at_once);
                self.confirmed += 1;
                let id = m[m.len() - 1].id;
                self.w.cm.message_sent(CallId::new(id)).unwrap();
            }
            2 => {
                sx::assume(waiting > 0 && !self.at_once);
                self.confirmed += 1;
                let last = &m[m.len() - 1];
                let was = self.active();
                let connected = was
                    && self.w.cm.active_call().unwrap().state().unwrap() >= CallState::ConnectedBeforeAccepted;
                let stays = last.id != ID || (connected && matches!(last.ev, Ev::Ice(..)));
                self.w.cm.message_send_failure(CallId::new(last.id)).unwrap();
                sx::idle();
                if was {
                    sx::check!(self.active() == stays);
                    sx::check!(stays || self.w.app.ended(ID) == [CallEndReason::SignalingFailure]);
                    sx::cover!(!stays);
                    // stays are reached once connected
                }
            }
            3 => {
                // someone else calls
                sx::assume(self.busies < 2 && self.active());
                let id = 10 + self.busies;
                self.busies += 1;
                self.w
                    .cm
                    .received_offer(Peer(2), CallId::new(id), offer(1, Duration::ZERO))
                    .unwrap();
            }
            4 => self.w.cm.hangup().unwrap(),
            _ => {
                let Some(mut c) = self.w.conn(1) else {
                    sx::assume(false);
                    return;
                };
                c.inject_ice_connected().unwrap();
            }
        }
        sx::idle();
        self.check();
    }
    fn check(&self) {
        let m = messages(&self.w);
        let mut sent = vec![];
        let mut over = false;
        let (mut busies, mut hangups) = (0, 0);
        for (i, r) in m.iter().enumerate() {
            match &r.ev {
                Ev::Ice(x, to) => {
                    sx::check!(r.id == ID && i > 0 && !over && !x.candidates.is_empty());
                    sx::check!(*to == if self.w.app.count(ID, |e| matches!(e, Ev::Offer(_))) == 1 { None } else { Some(1) });
                    for c in &x.candidates {
                        let s = c.v3_sdp().unwrap();
                        sent.push(s[1..].parse::<u8>().unwrap());
                    }
                }
                Ev::Hangup(h) => {
                    sx::check!(r.id == ID && *h == Hangup::Normal);
                    over = true;
                    hangups += 1;
                }
                Ev::Busy => {
                    sx::check!(r.id == 10 + busies);
                    busies += 1;
                }
                _ => sx::check!(i == 0 && r.id == ID),
            }
        }
        // in the order found, none twice, none skipped
        sx::check!(sent[..] == self.found[..sent.len()]);
        sx::check!(hangups <= 1);
        if self.at_once {
            sx::check!(sent.len() == self.found.len() && busies == self.busies);
        } else {
            // one at a time
            sx::check!(m.len() - self.confirmed <= 1);
            if m.len() == self.confirmed {
                // and nothing kept back
                sx::check!(busies == self.busies);
                sx::check!(!self.active() || sent.len() == self.found.len());
            }
        }
        sx::cover!(sent.len() == 2);
        if !self.at_once {
            sx::cover!(m.len() > 1 && matches!(&m[1].ev, Ev::Ice(x, _) if x.candidates.len() == 2));
        }
    }
    /// The messages that were due at the end come out however the call ended.
    fn finish(&mut self) {
        if self.active() {
            self.w.cm.hangup().unwrap();
            sx::idle();
            self.check();
        }
        for _ in 0..4 {
            if !self.at_once && messages(&self.w).len() > self.confirmed {
                self.confirmed += 1;
                self.w.cm.message_sent(self.w.id()).unwrap();
                sx::idle();
                self.check();
            }
        }
        let m = messages(&self.w);
        sx::check!(self.at_once || m.len() == self.confirmed);
        let hangups = m.iter().filter(|r| matches!(r.ev, Ev::Hangup(_))).count();
        if self.w.app.ended(ID) == [CallEndReason::LocalHangup] {
            sx::check!(hangups == 1);
        }
    }
}

//@ harness bound="an_incoming_call,any_5_of_candidates_confirmations_failures_other_offers_hangups"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_queue_in() {
    let mut q = Q::new(false, false);
    for _ in 0..5 {
        q.step(5);
    }
    q.finish();
}

//@ harness bound="an_outgoing_call,any_5_of_candidates_confirmations_failures_other_offers_hangups"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_queue_out() {
    let mut q = Q::new(true, false);
    for _ in 0..5 {
        q.step(5);
    }
    q.finish();
}

/// Once connected, candidates that could not be sent do not end the call.
//@ harness bound="a_connected_incoming_call,any_4_of_candidates_confirmations_failures_other_offers_hangups"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_queue_connected() {
    let mut q = Q::new(false, false);
    q.confirmed = 1;
    q.w.sent();
    q.w.conn(1).unwrap().inject_ice_connected().unwrap();
    sx::idle();
    for _ in 0..4 {
        q.step(5);
    }
    sx::cover!(q.active() && q.confirmed == 3);
    q.finish();
}

/// An application that takes messages for sent is given each at once.
//@ harness bound="either_direction,any_4_of_candidates_other_offers_hangups"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_queue_at_once() {
    let mut q = Q::new(sx::concb(sx::bool()), true);
    for _ in 0..4 {
        q.step(5);
    }
    q.finish();
}
