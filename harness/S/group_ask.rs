//@ property=L04
//@ append=src/rust/src/core/group_call.rs
// What a group call's client asks of the SFU, and agrees with it.
include!("_group.rs");
use device_to_sfu::AdminAction;

fn outstanding(g: &G) -> usize {
    g.seen.peeks.lock().unwrap().len()
}
const PEEK: fn() -> PeekInfo = || PeekInfo {
    devices: vec![],
    pending_devices: vec![],
    creator: None,
    era_id: None,
    max_devices: None,
    call_link_state: None,
};
#[derive(Clone, Copy)]
enum Asked {
    /// when, and whether it has to be asked again
    Open(u64, bool),
    Known(u64),
    Failed(u64),
}
//@ harness bound="steps=4"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_peeks() {
    peeks(4);
}
//@ harness bound="steps=6" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_peeks_6() {
    peeks(6);
}
fn peeks(steps: usize) {
    const TICK: u64 = SEC / 5;
    let mut g = G::new(None);
    // membership has to be proven first
    sx::check!(outstanding(&g) == 0);
    g.client.connect();
    sx::idle();
    for _ in 0..6 {
        g.advance(TICK);
    }
    sx::check!(outstanding(&g) == 0);
    g.client.set_membership_proof(vec![1]);
    sx::idle();
    sx::check!(outstanding(&g) == 1);
    let mut asked = Asked::Open(g.now, false);
    for _ in 0..steps {
        // the SFU is asked now
        let mut now = false;
        match sx::conc(sx::pick(0, 4)) {
            n @ 0..2 => {
                for _ in 0..[6, 26][n as usize] {
                    g.advance(TICK);
                    let due = match asked {
                        // no answer in 5 s
                        Asked::Open(at, _) | Asked::Failed(at) => g.now > at + 5 * SEC,
                        Asked::Known(at) => g.now >= at + 10 * SEC,
                    };
                    if due {
                        sx::cover!();
                        // what was asked before is answered no more
                        let mut p = g.seen.peeks.lock().unwrap();
                        if matches!(asked, Asked::Open(..)) {
                            sx::check!(p.len() == 2);
                            p.remove(0);
                        }
                        asked = Asked::Open(g.now, false);
                    }
                    sx::check!(outstanding(&g) == matches!(asked, Asked::Open(..)) as usize);
                }
            }
            n @ 2..4 => {
                let Asked::Open(_, again) = asked else { return };
                let answer = g.seen.peeks.lock().unwrap().pop().unwrap();
                if n == 2 {
                    answer(Ok(PEEK()));
                    asked = if again { Asked::Open(g.now, false) } else { Asked::Known(g.now) };
                } else {
                    answer(Err(http::ResponseStatus::from(500)));
                    asked = Asked::Failed(g.now);
                }
                sx::idle();
            }
            _ => {
                // somebody comes or goes: what was known is old
                g.sfu(SfuToDevice {
                    device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: None }),
                    ..Default::default()
                });
                sx::idle();
                asked = match asked {
                    Asked::Open(at, _) if g.now <= at + 5 * SEC => Asked::Open(at, true),
                    Asked::Failed(at) if g.now <= at + 5 * SEC => asked,
                    _ => Asked::Open(g.now, false),
                };
            }
        }
        sx::check!(outstanding(&g) == matches!(asked, Asked::Open(..)) as usize);
    }
}

/// What was sent to the SFU since.
fn to_sfu(g: &G) -> Vec<DeviceToSfu> {
    g.take_rtp()
        .into_iter()
        .filter(|(h, _)| h.ssrc == 1)
        .map(|(_, p)| DeviceToSfu::decode(&p[..]).unwrap())
        .collect()
}
//@ harness bound="actions=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_admin() {
    let mut g = G::joined(None, None);
    // user 2 is in the call; 3 waits with two devices, 4 with one, and somebody nobody knows
    let mut p = peek_of(&[(ME, 1), (0x200, 2)]);
    p.pending_devices = peek_of(&[(0x400, 0), (0x300, 3), (0x301, 3), (0x401, 4)]).devices;
    g.sfu(SfuToDevice {
        device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: Some(p) }),
        ..Default::default()
    });
    sx::idle();
    let mut told = None;
    for e in g.take() {
        if let Ev::Peek(p, u) = e {
            sx::check!(u == [user(1), user(2)].into_iter().collect());
            told = Some(p.unique_pending_users().into_iter().cloned().collect::<HashSet<_>>());
        }
    }
    sx::check!(told == Some([user(3), user(4)].into_iter().collect()));
    g.take_rtp();
    // not yet acknowledged
    let mut open: Vec<(u64, AdminAction, u64)> = vec![];
    let mut n = 0;
    for _ in 0..2 {
        let act = |d| device_to_sfu::GenericAdminAction { target_demux_id: Some(d) };
        let want = match sx::conc(sx::pick(0, 3)) {
            k @ 0..2 => {
                let who = sx::conc(sx::pick(2, 5)) as u8;
                let yes = k == 0;
                if yes {
                    g.client.approve_user(user(who));
                } else {
                    g.client.deny_user(user(who));
                }
                let d = match who {
                    3 => Some(0x300),
                    4 => Some(0x401),
                    _ => None,
                };
                d.map(|d| if yes { AdminAction::Approve(act(d)) } else { AdminAction::Deny(act(d)) })
            }
            2 => {
                g.client.remove_client(0x777);
                Some(AdminAction::Remove(act(0x777)))
            }
            _ => {
                g.client.block_client(0x200);
                Some(AdminAction::Block(act(0x200)))
            }
        };
        sx::idle();
        if let Some(w) = &want {
            n += 1;
            open.push((n, w.clone(), g.now));
        }
        let actions = |g: &G| -> Vec<_> {
            to_sfu(g)
                .into_iter()
                .filter_map(|m| m.admin_action.map(|a| (m.mrp_header.unwrap().seqnum.unwrap(), a)))
                .collect()
        };
        sx::check!(actions(&g) == want.map(|w| (n, w)).into_iter().collect::<Vec<_>>());
        // again until the SFU has it
        if sx::concb(sx::bool()) {
            g.sfu(SfuToDevice {
                mrp_header: Some(MrpHeader { ack_num: Some(n + 1), ..Default::default() }),
                ..Default::default()
            });
            sx::idle();
            open.clear();
            sx::cover!();
        }
        g.advance(SEC);
        let again = actions(&g);
        sx::check!(again == open.iter().map(|o| (o.0, o.1.clone())).collect::<Vec<_>>());
        if !again.is_empty() {
            sx::cover!();
        }
    }
}

/// The SRTP keys a client has.
fn srtp(g: &G) -> Option<SrtpKeys> {
    let k = Arc::new(Mutex::new(None));
    let to = k.clone();
    g.client.actor.send(move |state| {
        if let DheState::Negotiated { srtp_keys } = &state.dhe_state {
            *to.lock().unwrap() = Some(srtp_keys.clone());
        }
    });
    sx::idle();
    let k = k.lock().unwrap().take();
    k
}
//@ harness bound="keys=1_good_1_bad"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_srtp() {
    let mut g = G::new(None);
    g.client.set_membership_proof(vec![1]);
    g.client.connect();
    g.client.join();
    sx::idle();
    sx::check!(srtp(&g).is_none());
    let (_, _, mine, client) = g.seen.joins.lock().unwrap().pop().unwrap();
    let server = EphemeralSecret::random_from_rng(OsRng);
    let mut j = joined(JoinState::Joined(ME), None);
    // (Diffie-Hellman is a stand-in, with one point of low order)
    let bad = sx::concb(sx::bool());
    j.server_dhe_pub_key = if bad { [0; 32] } else { *PublicKey::from(&server).as_bytes() };
    g.take();
    client.on_sfu_client_join_attempt_completed(Ok(j));
    sx::idle();
    let k = srtp(&g);
    if bad {
        // no call whose keys anybody knows
        sx::check!(k.is_none());
        g.advance(20_000_000);
        let l = g.take();
        sx::check!(l.iter().any(|e| matches!(e, Ev::Ended(CallEndReason::FailedToNegotiatedSrtpKeys))));
        sx::check!(!l.iter().any(|e| matches!(e, Ev::Join(JoinState::Joined(_) | JoinState::Pending(_)))));
        sx::cover!();
        return;
    }
    // what the SFU makes of the client's public key
    let secret = server.diffie_hellman(&PublicKey::from(mine));
    let mut want = [0; 56];
    Hkdf::<Sha256>::new(Some(&[0; 32]), secret.as_bytes())
        .expand(b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDFinfo", &mut want)
        .unwrap();
    let k = k.unwrap();
    let got = [k.client.key, k.client.salt, k.server.key, k.server.salt];
    sx::check!(got.each_ref().map(|k| k.len()) == [16, 12, 16, 12]);
    sx::check!(got.concat() == want);
    sx::cover!();
    // another answer does not change them
    client.on_sfu_client_join_attempt_completed(Ok(joined(JoinState::Joined(ME), None)));
    sx::check!(srtp(&g).unwrap().client.key == want[..16]);
}
//@ harness bound="devices=3_lists=3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_transceivers() {
    let mut g = G::joined(None, None);
    let mut was: Vec<Option<DemuxId>> = vec![];
    for _ in 0..3 {
        let mask = sx::conc(sx::pick(0, 7));
        let here: Vec<_> = (0..3).filter(|n| mask >> n & 1 == 1).map(|n| (0x200 + n as u32, n as u8 + 2)).collect();
        let mut d = vec![(ME, 1)];
        d.extend(&here);
        g.present(&d);
        let now = Arc::new(Mutex::new(vec![]));
        let to = now.clone();
        g.client.actor.send(move |state| {
            *to.lock().unwrap() = state.remote_transceiver_demux_ids.clone();
        });
        sx::idle();
        let now = now.lock().unwrap().clone();
        // each device here has its own, and keeps it
        for (d, _) in &here {
            sx::check!(now.iter().filter(|n| **n == Some(*d)).count() == 1);
            if let Some(k) = was.iter().position(|w| *w == Some(*d)) {
                sx::check!(now[k] == Some(*d));
                sx::cover!();
            }
        }
        // nobody else has one, and none is added while there is a free one
        sx::check!(now.iter().flatten().all(|n| here.iter().any(|h| h.0 == *n)));
        sx::check!(now.len() == was.len().max(here.len()));
        was = now;
    }
}
//@ harness bound="changes=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_data_mode() {
    let mut g = G::joined(None, None);
    g.present(&[(ME, 1), (0x200, 2)]);
    let rate = |g: &G| -> Vec<_> {
        to_sfu(g).into_iter().filter_map(|m| m.video_request).map(|v| v.max_kbps.unwrap()).collect()
    };
    g.advance(SEC);
    let mut max = 20000;
    let r = || VideoRequest { demux_id: 0x200, width: 10, height: 10, framerate: None };
    g.client.request_video(vec![r()], 100);
    sx::idle();
    sx::check!(rate(&g) == [max]);
    for _ in 0..2 {
        let fresh = sx::concb(sx::bool());
        if fresh {
            g.advance(SEC);
            sx::check!(rate(&g) == [max]);
        }
        let (mode, m) = match sx::conc(sx::pick(0, 2)) {
            0 => (DataMode::Low, 500),
            1 => (DataMode::Normal, 20000),
            _ => (
                DataMode::Custom {
                    max_bitrate: DataRate::from_kbps(1),
                    max_group_call_receive_rate: DataRate::from_kbps(77),
                },
                77,
            ),
        };
        max = m;
        g.client.set_data_mode(mode);
        sx::idle();
        let now = rate(&g);
        sx::check!(now == [max] || !fresh && now.is_empty());
        g.advance(SEC);
        sx::check!(rate(&g) == [max]);
        sx::cover!();
    }
}
