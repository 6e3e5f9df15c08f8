//@ property=L03
//@ append=src/rust/src/core/group_call.rs
// The life of a group call's client, and the rings it sends.
include!("_group.rs");
use crate::protobuf::signaling::call_message::{RingIntention, RingResponse, ring_intention, ring_response};
use crate::webrtc::peer_connection_observer::PeerConnectionObserverTrait;

#[derive(Clone, Copy, PartialEq, Debug)]
enum J {
    Not,
    Joining,
    Pending,
    Joined,
}
fn j(s: JoinState) -> J {
    match s {
        JoinState::NotJoined(_) => J::Not,
        JoinState::Joining => J::Joining,
        JoinState::Pending(d) => {
            sx::check!(d == ME);
            J::Pending
        }
        JoinState::Joined(d) => {
            sx::check!(d == ME);
            J::Joined
        }
    }
}
struct Life {
    g: G,
    ice: PeerConnectionObserverImpl,
    /// another call
    other: bool,
    conn: ConnectionState,
    join: J,
    /// what ends the call
    ending: Option<(u64, CallEndReason)>,
    ended: bool,
    joins: usize,
    /// the peer connection knows where the SFU is
    started: bool,
    /// this device is in the SFU's list
    listed: bool,
    sent: HashMap<rtp::Ssrc, u16>,
}
impl Life {
    fn new() -> Life {
        let g = G::new(None);
        let ice = PeerConnectionObserverImpl {
            client: Some(g.client.clone()),
            incoming_video_sink: None,
            last_height_by_demux_id: CallMutex::new(HashMap::new(), "heights"),
        };
        g.client.set_membership_proof(vec![1]);
        sx::idle();
        Life {
            g,
            ice,
            other: false,
            conn: ConnectionState::NotConnected,
            join: J::Not,
            ending: None,
            ended: false,
            joins: 0,
            started: false,
            listed: false,
            sent: HashMap::new(),
        }
    }
    /// What has been heard since, given what may change.
    fn heard(&mut self, conn: &[ConnectionState], join: &[J], leaving: bool) {
        let mut conn = conn.iter();
        let mut join = join.iter();
        for e in self.g.take() {
            sx::check!(!self.ended);
            match e {
                Ev::Conn(ConnectionState::NotConnected) => {
                    sx::check!(self.ending.is_some_and(|e| self.g.now >= e.0));
                    sx::check!(self.conn != ConnectionState::NotConnected);
                    self.conn = ConnectionState::NotConnected;
                }
                Ev::Conn(s) => {
                    sx::check!(conn.next() == Some(&s));
                    self.conn = s;
                }
                // (told twice when the list of devices was faster than the answer)
                Ev::Join(s) if j(s) == self.join => sx::check!(j(s) == J::Joined),
                Ev::Join(s) => {
                    sx::check!(join.next() == Some(&j(s)));
                    self.join = j(s);
                }
                Ev::Ended(why) => {
                    let (at, reason) = self.ending.unwrap();
                    sx::check!(self.g.now >= at && reason == why);
                    sx::check!(self.conn == ConnectionState::NotConnected);
                    self.ended = true;
                }
                _ => {}
            }
        }
        sx::check!(conn.next().is_none() && join.next().is_none());
        // it ends when it has to
        sx::check!(self.ended == self.ending.is_some_and(|e| self.g.now >= e.0));
        // the device is busy while it is in a call, or on its way into it
        sx::check!(*self.g.busy.lock().unwrap() == (self.other || self.join != J::Not));
        // the SFU is asked once for each
        sx::check!(self.g.seen.joins.lock().unwrap().len() == self.joins);
        let rtp = self.g.take_rtp();
        let mut leaves = 0;
        for (h, p) in &rtp {
            // nothing is encrypted with the same index twice
            let last = self.sent.insert(h.ssrc, h.seqnum);
            sx::check!(last.is_none_or(|s| s.wrapping_add(1) == h.seqnum));
            if h.ssrc == 1 {
                leaves += DeviceToSfu::decode(&p[..]).unwrap().leave.is_some() as usize;
            }
        }
        // the SFU hears of leaving, and of nothing when not there
        sx::check!(leaves == if leaving { 2 } else { 0 });
        sx::check!(leaving || rtp.is_empty() || matches!(self.join, J::Pending | J::Joined));
        if leaving || self.join == J::Not {
            sx::check!(!sends(&self.g));
        }
    }
    fn end(&mut self, why: CallEndReason) {
        if self.conn != ConnectionState::NotConnected && self.ending.is_none() {
            self.ending = Some((self.g.now + 20_000_000, why));
        }
        self.left();
    }
    fn left(&mut self) {
        match self.join {
            J::Not => self.heard(&[], &[], false),
            J::Joining => self.heard(&[], &[J::Not], false),
            _ => {
                self.heard(&[], &[J::Not], true);
                sx::cover!();
            }
        }
    }
    fn step(&mut self, op: u64) {
        use ConnectionState::*;
        let g = &mut self.g;
        match op {
            0 => {
                g.client.connect();
                sx::idle();
                let c: &[_] = if !self.ended && self.conn == NotConnected { &[Connecting] } else { &[] };
                self.heard(c, &[], false);
            }
            1 => {
                // the application connects before, and joins once at a time
                if self.joins > 0 || self.conn == NotConnected && !self.ended {
                    return;
                }
                g.client.join();
                sx::idle();
                if self.ended || self.join != J::Not {
                    self.heard(&[], &[], false);
                } else if self.other {
                    self.end(CallEndReason::CallManagerIsBusy);
                    sx::cover!();
                } else {
                    self.joins += 1;
                    self.heard(&[], &[J::Joining], false);
                }
            }
            2 => {
                g.client.leave();
                sx::idle();
                if self.ended {
                    self.heard(&[], &[], false);
                } else {
                    self.left();
                }
            }
            3 => {
                g.client.disconnect();
                sx::idle();
                if self.ended {
                    self.heard(&[], &[], false);
                } else {
                    self.end(CallEndReason::DeviceExplicitlyDisconnected);
                }
            }
            4 | 5 => {
                // (a client that is connected is not used for another join)
                if self.joins == 0 || matches!(self.conn, Connected | Reconnecting) {
                    return;
                }
                self.joins -= 1;
                let (s, n) = if op == 4 {
                    (JoinState::Joined(ME), J::Joined)
                } else {
                    (JoinState::Pending(ME), J::Pending)
                };
                g.answer_join(s, None);
                self.started |= self.conn == Connecting;
                let n = [if self.listed { J::Joined } else { n }];
                self.heard(&[], if self.join == J::Joining && !self.ended { &n } else { &[] }, false);
            }
            6 | 7 => {
                if self.joins == 0 {
                    return;
                }
                self.joins -= 1;
                let (_, _, _, client) = g.seen.joins.lock().unwrap().pop().unwrap();
                let (e, why) = if op == 6 {
                    (RingRtcError::GroupCallFull.into(), CallEndReason::HasMaxDevices)
                } else {
                    (anyhow::anyhow!("no"), CallEndReason::SfuClientFailedToJoin)
                };
                client.on_sfu_client_join_attempt_completed(Err(e));
                sx::idle();
                if self.ended {
                    self.heard(&[], &[], false);
                } else {
                    self.end(why);
                }
            }
            8..12 => {
                use IceConnectionState as I;
                if !self.started {
                    return;
                }
                let s = [I::Connected, I::Disconnected, I::Failed, I::Checking][op as usize - 8];
                self.ice.handle_ice_connection_state_changed(s).unwrap();
                sx::idle();
                let up = op == 8;
                match (self.conn, op) {
                    _ if self.ended => self.heard(&[], &[], false),
                    (Connecting | Reconnecting, 8) => self.heard(&[Connected], &[], false),
                    (Connected, 9 | 11) => {
                        sx::cover!();
                        self.heard(&[Reconnecting], &[], false)
                    }
                    (Connecting, 9 | 10) => self.end(CallEndReason::IceFailedWhileConnecting),
                    (_, 10) => self.end(CallEndReason::IceFailedAfterConnected),
                    _ => self.heard(&[], &[], false),
                }
            }
            12 => {
                g.sfu(SfuToDevice { removed: Some(sfu_to_device::Removed {}), ..Default::default() });
                sx::idle();
                if self.ended {
                    self.heard(&[], &[], false);
                } else {
                    self.end(if self.join == J::Joined {
                        CallEndReason::RemovedFromCall
                    } else {
                        CallEndReason::DeniedRequestToJoinCall
                    });
                }
            }
            13 | 14 => {
                g.present(if op == 13 { &[(ME, 1), (0x200, 2)] } else { &[(0x200, 2)] });
                self.listed = op == 13;
                let admitted = op == 13 && self.join == J::Pending && !self.ended;
                self.heard(&[], if admitted { &[J::Joined] } else { &[] }, false);
                if admitted {
                    sx::cover!();
                }
            }
            15 => {
                g.advance(20_000_000);
                // joining again while it ends is of no avail
                if self.ending.is_some_and(|e| self.g.now >= e.0) && !self.ended {
                    self.left();
                } else {
                    self.heard(&[], &[], false);
                }
            }
            _ => {
                // another call comes or goes
                if self.join != J::Not {
                    return;
                }
                self.other = !self.other;
                *g.busy.lock().unwrap() = self.other;
            }
        }
    }
}
fn sends(g: &G) -> bool {
    let on = Arc::new(Mutex::new(false));
    let to = on.clone();
    g.client.actor.send(move |state| *to.lock().unwrap() = state.peer_connection.sends_media());
    sx::idle();
    let v = *on.lock().unwrap();
    v
}
fn life(steps: usize) {
    let mut l = Life::new();
    // from the start, connecting, joining, waiting to be let in, or in the call
    let at = sx::conc(sx::pick(0, 5));
    let to: &[u64] = match at {
        0 => &[],
        1 => &[0],
        2 => &[0, 1],
        3 => &[0, 1, 5],
        4 => &[0, 1, 4],
        _ => &[0, 1, 4, 8, 13],
    };
    for o in to {
        l.step(*o);
    }
    for _ in 0..steps {
        let op = sx::conc(sx::pick(0, 16));
        l.step(op);
    }
    // whatever happened, it can be ended
    let connected = l.conn != ConnectionState::NotConnected;
    l.step(3);
    if sx::concb(sx::bool()) {
        l.step(1);
    }
    l.step(15);
    sx::check!(!connected || l.ended);
    l.step(15);
    l.g.advance(SEC);
    l.heard(&[], &[], false);
    sx::check!(*l.g.busy.lock().unwrap() == l.other);
}
//@ harness bound="states=6_steps=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_life() {
    life(2);
}
//@ harness bound="states=6_steps=3" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_life_3() {
    life(3);
}

/// Rings sent to the group since: (what, which).
fn rings(g: &G) -> Vec<(ring_intention::Type, i64)> {
    let mut v = vec![];
    for e in g.take() {
        match e {
            Ev::ToGroup(group, CallMessage { ring_intention: Some(r), .. }, urgency, to) => {
                sx::check!(group == GROUP && r.group_id.as_deref() == Some(GROUP) && to.is_empty());
                sx::check!(urgency == SignalingMessageUrgency::HandleImmediately);
                v.push((r.r#type(), r.ring_id.unwrap()));
            }
            Ev::Send(_, CallMessage { ring_intention: Some(_), .. }, _) => sx::check!(false),
            _ => {}
        }
    }
    v
}
const RING: i64 = 0x1111111111111111;
//@ harness bound="steps=5"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_ring() {
    ring(5);
}
//@ harness bound="steps=7" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_ring_7() {
    ring(7);
}
fn ring(steps: usize) {
    use ring_intention::Type::*;
    let mut g = G::new(None);
    g.client.set_membership_proof(vec![1]);
    g.client.connect();
    g.client.join();
    sx::idle();
    // in the call, and whose it is, if the SFU said
    let mut joined: Option<Option<u8>> = None;
    let mut out = false;
    let mut asked = false;
    let mut rung = false;
    // somebody is here, and was when it rang or since
    let mut here = false;
    let mut company = false;
    g.take();
    for _ in 0..steps {
        let mut want = vec![];
        match sx::conc(sx::pick(0, 5)) {
            0 => {
                // (the application does not ring once it left)
                if out {
                    return;
                }
                g.client.ring(None);
                sx::idle();
                asked = true;
                if joined == Some(Some(1)) && !rung {
                    rung = true;
                    want.push((Ring, RING));
                    company = here;
                }
            }
            n @ 1..4 => {
                if joined.is_some() || out {
                    return;
                }
                let creator = [None, Some(1), Some(2)][n as usize - 1];
                let s = if sx::concb(sx::bool()) { JoinState::Joined(ME) } else { JoinState::Pending(ME) };
                g.answer_join(s, creator.map(user));
                joined = Some(creator);
                if creator == Some(1) && asked {
                    rung = true;
                    company = here;
                    want.push((Ring, RING));
                    sx::cover!();
                }
            }
            4 => {
                if joined.is_none() {
                    return;
                }
                here = !here;
                g.present(if here { &[(ME, 1), (0x200, 2)] } else { &[(ME, 1)] });
                company |= here;
            }
            _ => {
                if out {
                    return;
                }
                out = true;
                g.client.leave();
                sx::idle();
                if rung && !company {
                    want.push((Cancelled, RING));
                    sx::cover!();
                }
            }
        }
        sx::check!(rings(&g) == want);
    }
}
//@ harness bound="rings=0-2_other_uuid=any"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_ring_accepted() {
    let first = sx::concb(sx::bool()).then(|| RingId::from(sx::range(0, 1 << 62) as i64));
    let g = G::new(first);
    let mut want = first;
    if sx::concb(sx::bool()) {
        let r = RingId::from(sx::range(0, 1 << 62) as i64);
        g.client.provide_ring_id_if_absent(r);
        want = want.or(Some(r));
    }
    g.client.set_membership_proof(vec![1]);
    g.client.connect();
    sx::idle();
    let told = |want: Option<RingId>| {
        let mut got = vec![];
        for e in g.take() {
            let (to, m, urgency) = match e {
                Ev::Send(to, m, urgency) => (to, m, urgency),
                Ev::ToGroup(_, m, ..) | Ev::ToAdhoc(m, ..) => {
                    sx::check!(m.ring_response.is_none());
                    continue;
                }
                _ => continue,
            };
            let Some(r) = m.ring_response else { continue };
            // this user's other devices, at once
            sx::check!(to == user(1) && urgency == SignalingMessageUrgency::HandleImmediately);
            sx::check!(r.group_id.as_deref() == Some(GROUP));
            sx::check!(r.r#type() == ring_response::Type::Accepted);
            got.push(RingId::from(r.ring_id.unwrap()));
        }
        sx::check!(got == want.into_iter().collect::<Vec<_>>());
    };
    told(None);
    let busy = sx::concb(sx::bool());
    *g.busy.lock().unwrap() = busy;
    g.client.join();
    sx::idle();
    // only who really joins accepts
    told(want.filter(|_| !busy));
    sx::cover!(want.is_some() && !busy);
    g.client.provide_ring_id_if_absent(RingId::from(5));
    g.client.join();
    sx::idle();
    told(None);
}
/// What a device's ring is named is what any other device makes of the era.
//@ harness bound="era=0-17chars"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_ring_id() {
    let n = sx::conc(sx::pick(14, 17)) as usize;
    let hex = b"0123456789abcdefABCDEF";
    let s: Vec<u8> = (0..n).map(|_| sx::range(0x30, 0x39) as u8).collect();
    let era = String::from_utf8(s.clone()).unwrap();
    let r: i64 = RingId::from_era_id(&era).into();
    if n == 16 {
        let v = s.iter().fold(0u64, |v, c| v << 4 | (c - 0x30) as u64);
        sx::check!(r as u64 == if v == 0 { u64::MAX } else { v });
        sx::cover!();
    }
    sx::check!(r == i64::from(RingId::from_era_id(&era)));
}
/// Membership is proven when it is asked for, and every day.
//@ harness bound="days=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_proofs() {
    const DAY: u64 = 86400 * SEC;
    let mut g = G::new(None);
    let proofs = |g: &G| g.take().iter().filter(|e| matches!(e, Ev::Proof)).count();
    sx::check!(proofs(&g) == 0);
    g.client.connect();
    sx::idle();
    sx::check!(proofs(&g) == 1);
    let wait = sx::conc(sx::pick(0, 2)) * (DAY / 2);
    if wait > 0 {
        g.advance(wait);
        sx::check!(proofs(&g) == (wait == DAY) as usize);
    }
    g.client.join();
    sx::idle();
    sx::check!(proofs(&g) == 1);
    let joined = sx::concb(sx::bool());
    if joined {
        g.answer_join(JoinState::Joined(ME), None);
    }
    g.advance(DAY - SEC);
    sx::check!(proofs(&g) == 0);
    g.advance(SEC);
    sx::check!(proofs(&g) == 1);
    g.client.leave();
    sx::idle();
    g.advance(2 * DAY);
    sx::check!(proofs(&g) == 0);
    sx::cover!();
}
