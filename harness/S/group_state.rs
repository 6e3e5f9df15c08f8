//@ property=L02
//@ append=src/rust/src/core/group_call.rs
// What the SFU and the other devices say about a group call, and what the application hears of it.
include!("_group.rs");
use sfu_to_device::{RaisedHands, Removed, Speaker};

fn reliable(seqnum: u64) -> Option<MrpHeader> {
    Some(MrpHeader { seqnum: Some(seqnum), ..Default::default() })
}
fn hands(d: &[DemuxId]) -> SfuToDevice {
    SfuToDevice {
        raised_hands: Some(RaisedHands {
            demux_ids: d.to_vec(),
            seqnums: vec![],
            target_seqnum: Some(0),
        }),
        ..Default::default()
    }
}
/// What the application was told about raised hands.
fn told_hands(g: &G) -> Vec<Vec<DemuxId>> {
    g.take().into_iter().filter_map(|e| if let Ev::Hands(h) = e { Some(h) } else { None }).collect()
}
//@ harness bound="messages=3_of_1-2packets_1_late_1_twice"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_reliable() {
    let mut g = G::joined(None, None);
    g.take();
    let mut packets = vec![];
    for n in 1..=3 {
        let m = hands(&[n]);
        let b = m.encode_to_vec();
        // as it is, in one packet's content, or in two's
        match sx::conc(sx::pick(0, 2)) {
            0 => packets.push((None, m)),
            1 => {
                packets.push((None, SfuToDevice { content: Some(b), ..Default::default() }));
            }
            _ => {
                for (k, part) in [&b[..3], &b[3..]].into_iter().enumerate() {
                    let m = SfuToDevice { content: Some(part.to_vec()), ..Default::default() };
                    packets.push((if k == 0 { Some(2) } else { None }, m));
                }
            }
        }
    }
    for (n, (num_packets, m)) in packets.iter_mut().enumerate() {
        m.mrp_header = Some(MrpHeader {
            seqnum: Some(n as u64 + 1),
            num_packets: *num_packets,
            ..Default::default()
        });
    }
    let late = sx::conc(sx::pick(0, packets.len() as u64 - 1)) as usize;
    let by = sx::conc(sx::pick(0, (packets.len() - 1 - late) as u64)) as usize;
    let p = packets.remove(late);
    packets.insert(late + by, p);
    let twice = sx::conc(sx::pick(0, packets.len() as u64 - 1)) as usize;
    packets.push(packets[twice].clone());
    for (_, m) in packets {
        g.sfu(m);
        sx::idle();
    }
    // each arrives once, in order
    sx::check!(told_hands(&g) == [[1], [2], [3]]);
    if by > 1 {
        sx::cover!();
    }
}
//@ harness bound="reports=2_of_0-4_raises=any_between"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_hands() {
    some_hands(2);
}
//@ harness bound="reports=3_of_0-4_raises=any_between" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_hands_3() {
    some_hands(3);
}
fn some_hands(reports: usize) {
    let mut g = G::joined(None, None);
    g.take();
    let mut mine = 0;
    let mut wait = false;
    let mut shown: Vec<DemuxId> = vec![];
    for _ in 0..reports {
        if sx::concb(sx::bool()) {
            g.take_rtp();
            let raise = sx::concb(sx::bool());
            g.client.raise_hand(raise);
            sx::idle();
            mine += 1;
            wait = true;
            // the SFU is told
            let sent = to_sfu(&g);
            sx::check!(sent.len() == 1);
            let r = sent[0].raise_hand.as_ref().unwrap();
            sx::check!(r.raise == Some(raise) && r.seqnum == Some(mine));
        }
        let seen = sx::conc(sx::pick(0, 4)) as u32;
        let list: Vec<DemuxId> = [vec![], vec![ME], vec![5, ME]][sx::pick(0, 2) as usize].clone();
        let mut m = hands(&list);
        m.raised_hands.as_mut().unwrap().target_seqnum = Some(seen);
        g.sfu(m);
        sx::idle();
        let told = told_hands(&g);
        // what the SFU said before it got our last request does not count; after it, the
        // application is told, once, and later when there is a change
        let counts = seen >= mine;
        let want = counts && (seen != 0 && wait || list != shown);
        sx::check!(told == if want { vec![list.clone()] } else { vec![] });
        if want {
            shown = list;
            sx::cover!();
        }
        if counts && seen != 0 {
            wait = false;
            mine = seen;
        }
        if !counts {
            sx::cover!();
        }
    }
    // what the SFU has not answered is asked again, and what it has is not
    g.take_rtp();
    g.advance(SEC);
    let again = to_sfu(&g).into_iter().filter(|m| m.raise_hand.is_some()).count();
    sx::check!((again != 0) == wait);
}
fn to_sfu(g: &G) -> Vec<DeviceToSfu> {
    g.take_rtp()
        .into_iter()
        .filter(|(h, _)| h.ssrc == 1)
        .map(|(_, p)| DeviceToSfu::decode(&p[..]).unwrap())
        .collect()
}
fn devices_told(g: &G) -> Vec<(Vec<RemoteDeviceState>, RemoteDevicesChangedReason)> {
    g.take()
        .into_iter()
        .filter_map(|e| if let Ev::Devices(d, r) = e { Some((d, r)) } else { None })
        .collect()
}
const D: [DemuxId; 2] = [0x200, 0x300];
/// Users 2 and 3 are in the call, and their keys known; and those.
fn three() -> (G, [frame_crypto::Context; 2]) {
    let mut g = G::joined(None, None);
    g.present(&[(ME, 1), (D[0], 2), (D[1], 3)]);
    let mut theirs = [[3u8; 32], [4u8; 32]].map(frame_crypto::Context::new);
    for (n, t) in theirs.iter_mut().enumerate() {
        let (c, s) = t.send_state();
        g.client.on_signaling_message_received(
            user(n as u8 + 2),
            DeviceToDevice {
                media_key: Some(device_to_device::MediaKey {
                    demux_id: Some(D[n]),
                    ratchet_counter: Some(c as u32),
                    secret: Some(s.to_vec()),
                }),
                ..Default::default()
            },
        );
    }
    sx::idle();
    g.take();
    (g, theirs)
}
/// Data of a device reaches this one through the SFU.
fn data(g: &G, of: &mut frame_crypto::Context, device: DemuxId, time: u32, m: DeviceToDevice) {
    let m = m.encode_to_vec();
    let mut b = vec![0; m.len() + 21];
    Client::encrypt(of, &m, &mut b).unwrap();
    let h = rtp::Header { pt: 101, ssrc: device + 0xd, seqnum: time as u16, timestamp: time };
    g.client.handle_rtp_received(h, &b);
    sx::idle();
}
//@ harness bound="reports=3_times=any"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_speaker() {
    let (mut g, _) = three();
    let mut last: Option<u32> = None;
    let mut speaker = None;
    for _ in 0..3 {
        let t = sx::u32();
        let who = [D[0], D[1], ME][sx::pick(0, 2) as usize];
        g.advance(SEC);
        let m = SfuToDevice {
            speaker: Some(Speaker { demux_id: Some(who) }),
            ..Default::default()
        };
        g.sfu_at(t, m);
        sx::idle();
        let told = devices_told(&g);
        // the newest counts, and a change is told once
        let newer = last.is_none_or(|l| t > l);
        if newer {
            last = Some(t);
        }
        let change = newer && who != ME && speaker != Some(who);
        if !change {
            sx::check!(told.is_empty());
            continue;
        }
        speaker = Some(who);
        sx::check!(told.len() == 1);
        sx::check!(matches!(told[0].1, RemoteDevicesChangedReason::SpeakerTimeChanged(x) if x == who));
        // whoever spoke last has the latest time
        let latest = told[0].0.iter().max_by_key(|d| d.speaker_time).unwrap();
        sx::check!(latest.demux_id == who);
        sx::cover!();
    }
}
fn flag() -> Option<bool> {
    [None, Some(false), Some(true)][sx::pick(0, 2) as usize]
}
//@ harness bound="heartbeats=2_times=any_flags=any"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_heartbeat() {
    let (mut g, mut theirs) = three();
    let mut state = HeartbeatState::default();
    let mut last = 0;
    for _ in 0..2 {
        let t = sx::u32();
        let s = HeartbeatState {
            audio_muted: flag(),
            video_muted: flag(),
            presenting: None,
            sharing_screen: flag(),
            muted_by_demux_id: None,
        };
        let m = DeviceToDevice {
            heartbeat: Some(device_to_device::Heartbeat {
                audio_muted: s.audio_muted,
                video_muted: s.video_muted,
                presenting: s.presenting,
                sharing_screen: s.sharing_screen,
                muted_by_demux_id: s.muted_by_demux_id,
            }),
            ..Default::default()
        };
        data(&g, &mut theirs[0], D[0], t, m);
        let told = devices_told(&g);
        // the newest counts
        let change = t > last && s != state;
        last = last.max(t);
        sx::check!(told.len() == change as usize);
        if change {
            state = s;
            sx::check!(matches!(told[0].1, RemoteDevicesChangedReason::HeartbeatStateChanged(x) if x == D[0]));
            sx::check!(told[0].0[0].demux_id == D[0] && told[0].0[0].heartbeat_state == state);
            sx::check!(told[0].0[1].heartbeat_state == HeartbeatState::default());
            sx::cover!();
        }
    }
}
//@ harness bound="messages=3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_mute_requests() {
    let (mut g, mut theirs) = three();
    let mut want = vec![];
    let mut first = None;
    for n in 0..3 {
        let op = sx::conc(sx::pick(0, 4));
        if op == 4 {
            g.advance(SEC / 4);
            want.extend(first.take());
            continue;
        }
        let (who, of) = (op as usize / 2, [ME, D[0]][op as usize % 2]);
        let m = DeviceToDevice {
            remote_mute_request: Some(RemoteMuteRequest { target_demux_id: Some(of) }),
            ..Default::default()
        };
        data(&g, &mut theirs[who], D[who], n, m);
        if of == ME && first.is_none() {
            first = Some(D[who]);
        }
    }
    g.advance(SEC / 4);
    want.extend(first);
    let told: Vec<_> = g
        .take()
        .into_iter()
        .filter_map(|e| if let Ev::Mute(m) = e { Some(m) } else { None })
        .collect();
    sx::check!(told == want);
    sx::cover!(want.len() > 1);
}
//@ harness bound="asked=any_heartbeats=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_observed_mute() {
    let (mut g, mut theirs) = three();
    let beat = |g: &G, k: &mut frame_crypto::Context, t, muted, by| {
        let h = device_to_device::Heartbeat {
            audio_muted: muted,
            muted_by_demux_id: by,
            ..Default::default()
        };
        data(g, k, D[0], t, DeviceToDevice { heartbeat: Some(h), ..Default::default() });
    };
    let ask = |g: &G, k: &mut frame_crypto::Context| {
        let m = DeviceToDevice {
            remote_mute_request: Some(RemoteMuteRequest { target_demux_id: Some(D[0]) }),
            ..Default::default()
        };
        data(g, k, D[1], 1, m);
    };
    let before = sx::concb(sx::bool());
    let first = flag();
    let after = sx::concb(sx::bool());
    let mine = sx::concb(sx::bool());
    let second = flag();
    let by = [None, Some(D[1]), Some(ME), Some(D[0])][sx::conc(sx::pick(0, 3)) as usize];
    if before {
        ask(&g, &mut theirs[1]);
    }
    beat(&g, &mut theirs[0], 1, first, None);
    if after {
        ask(&g, &mut theirs[1]);
    }
    if mine {
        g.client.send_remote_mute_request(D[0]);
        sx::idle();
    }
    beat(&g, &mut theirs[0], 2, second, by);
    let told: Vec<_> = g
        .take()
        .into_iter()
        .filter_map(|e| if let Ev::Observed(from, of) = e { Some((from, of)) } else { None })
        .collect();
    // told only of a mute that was seen to be asked for since the device was last heard
    let asked = by == Some(D[1]) && after || by == Some(ME) && mine;
    let muted = first == Some(false) && second == Some(true);
    let want = if muted && asked { vec![(by.unwrap(), D[0])] } else { vec![] };
    sx::check!(told == want);
    if muted && asked {
        sx::cover!();
    }
    // and nobody asks himself
    g.take_rtp();
    g.client.send_remote_mute_request(ME);
    sx::idle();
    sx::check!(g.take_rtp().is_empty());
}
//@ harness bound="reactions=2_of_0-257bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_reactions() {
    let (mut g, mut theirs) = three();
    let mut want = vec![];
    for n in 0..2 {
        let len = [0, 1, 255, 256, 257][sx::conc(sx::pick(0, 4)) as usize];
        let who = sx::conc(sx::pick(0, 1)) as usize;
        let value = "r".repeat(len);
        let r = Some(device_to_device::Reaction { value: Some(value.clone()) });
        data(&g, &mut theirs[who], D[who], n, DeviceToDevice { reaction: r, ..Default::default() });
        if (1..=256).contains(&len) {
            want.push((D[who], value));
        }
    }
    sx::check!(!g.take().iter().any(|e| matches!(e, Ev::Reactions(_))));
    let mut told = vec![];
    for _ in 0..2 {
        g.advance(SEC / 4);
        for e in g.take() {
            if let Ev::Reactions(r) = e {
                sx::check!(!r.is_empty());
                told.extend(r.into_iter().map(|r| (r.demux_id, r.value)));
            }
        }
    }
    sx::check!(told == want);
    sx::cover!(want.len() == 2);
    // and ours
    let len = [0, 1, 256, 257][sx::conc(sx::pick(0, 3)) as usize];
    g.take_rtp();
    let value = "r".repeat(len);
    g.client.react(value.clone());
    sx::idle();
    let sent = g.take_rtp();
    sx::check!(sent.len() == (1..=256).contains(&len) as usize);
    for (h, p) in sent {
        sx::check!(h.ssrc == ME + 0xd && h.pt == 101);
        let m = open(&g, &p);
        sx::check!(m.reaction.unwrap().value.unwrap() == value);
    }
}
/// What another device with the key in use reads.
fn open(g: &G, p: &[u8]) -> DeviceToDevice {
    let (c, s) = g.client.frame_crypto_context.lock().unwrap().send_state();
    let mut k = frame_crypto::Context::new([0; 32]);
    k.add_receive_secret(ME, c, s);
    let mut out = vec![0; p.len() - 21];
    Client::decrypt(&mut k, ME, p, &mut out).unwrap();
    DeviceToDevice::decode(&out[..]).unwrap()
}
//@ harness bound="from=2users_about=2devices"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_leaving() {
    let (mut g, mut theirs) = three();
    // nothing is asked for by itself in the next 10 s
    let peeks = g.seen.clone();
    peeks.peeks.lock().unwrap().clear();
    g.present(&[(ME, 1), (D[0], 2), (D[1], 3)]);
    peeks.peeks.lock().unwrap().clear();
    let who = sx::conc(sx::pick(0, 1)) as usize;
    let about = sx::conc(sx::pick(0, 1)) as usize;
    let group = [&b"group"[..], b"other"][sx::conc(sx::pick(0, 1)) as usize];
    let by_sfu = sx::concb(sx::bool());
    let m = DeviceToDevice {
        group_id: Some(group.to_vec()),
        leaving: Some(device_to_device::Leaving { demux_id: Some(D[about]) }),
        ..Default::default()
    };
    let believed = if by_sfu {
        data(&g, &mut theirs[who], D[who], 9, m);
        true
    } else {
        g.client.on_signaling_message_received(user(who as u8 + 2), m);
        sx::idle();
        who == about && group == GROUP
    };
    // whoever says so gets the SFU asked, and again later
    let asked = |n: usize| sx::check!(peeks.peeks.lock().unwrap().drain(..).count() == n);
    asked(believed as usize);
    if believed {
        g.present(&[(ME, 1), (D[0], 2), (D[1], 3)]);
        sx::cover!();
    }
    g.advance(2 * SEC);
    asked(believed as usize);
}

const OTHERS: u32 = 9;
//@ harness bound="devices=0-9_sharing=any_changes=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_rates() {
    let mut g = G::joined(None, None);
    let mut sharing = false;
    let mut now = None;
    let mut others = 0;
    let kbps = DataRate::from_kbps;
    for _ in 0..2 {
        if sx::concb(sx::bool()) {
            sharing = sx::concb(sx::bool());
            g.client.set_sharing_screen(sharing);
            sx::idle();
        } else {
            others = sx::conc(sx::pick(0, OTHERS as u64)) as u32;
            let mut d = vec![(ME, 1)];
            d.extend((0..others).map(|n| (0x200 + 0x10 * n, 2 + n as u8)));
            g.present(&d);
        }
        for e in g.take() {
            if let Ev::Rates(r) = e {
                // told of changes only
                sx::check!(now.as_ref() != Some(&r));
                now = Some(r);
            }
        }
        let want = match (others, sharing) {
            (0, _) => SendRates { max: Some(kbps(1)), ..Default::default() },
            (_, true) => SendRates {
                min: Some(kbps(500)),
                start: Some(kbps(1000)),
                max: Some(kbps(2000)),
            },
            (1..8, _) => SendRates { max: Some(kbps(1000)), ..Default::default() },
            _ => SendRates { max: Some(kbps(671)), ..Default::default() },
        };
        sx::check!(now == Some(want));
        // media flows when there is somebody to see and hear it
        sx::check!(outgoing(&g) == (others > 0));
        sx::cover!(others > 7 && !sharing);
    }
}
fn outgoing(g: &G) -> bool {
    let on = Arc::new(Mutex::new(None));
    let to = on.clone();
    g.client.actor.send(move |state| {
        *to.lock().unwrap() = Some(state.peer_connection.sends_media());
    });
    sx::idle();
    let v = on.lock().unwrap().unwrap();
    v
}
//@ harness bound="requests=2_changes=2"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_video_requests() {
    let (mut g, _) = three();
    // one at once between two heartbeats, the last again with each heartbeat
    g.advance(SEC);
    g.take_rtp();
    let mut last = vec![];
    let mut free = true;
    for _ in 0..2 {
        let r: Vec<_> = (0..2)
            .map(|_| {
                let demux_id = [D[0], D[1], 5][sx::conc(sx::pick(0, 2)) as usize];
                let (width, height) = [(640, 480), (480, 640), (0, 0)][sx::conc(sx::pick(0, 2)) as usize];
                VideoRequest { demux_id, width, height, framerate: None }
            })
            .collect();
        last = r.iter().filter(|r| r.demux_id != 5).map(|r| (r.demux_id, r.width.min(r.height))).collect();
        g.client.request_video(r, 100);
        sx::idle();
        let sent = requests(&g);
        sx::check!(sent == if free { vec![last.clone()] } else { vec![] });
        free = sx::concb(sx::bool());
        if free {
            g.advance(SEC);
            sx::check!(requests(&g) == [last.clone()]);
            sx::cover!();
        }
    }
    g.advance(SEC);
    sx::check!(requests(&g) == [last]);
}
fn requests(g: &G) -> Vec<Vec<(DemuxId, u16)>> {
    to_sfu(g)
        .into_iter()
        .filter_map(|m| m.video_request)
        .map(|v| {
            sx::check!(v.max_kbps == Some(20000) && v.active_speaker_height == Some(100));
            v.requests.iter().map(|r| (r.demux_id.unwrap(), r.height.unwrap() as u16)).collect()
        })
        .collect()
}
//@ harness bound="reports=2_devices=3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_forwarding() {
    let (mut g, _) = three();
    let mut now = vec![];
    for n in 0..2 {
        let mut list = vec![];
        for d in [D[0], D[1], 5] {
            if sx::concb(sx::bool()) {
                list.push((d, sx::range(0, 2000) as u32));
            }
        }
        g.sfu(SfuToDevice {
            current_devices: Some(sfu_to_device::CurrentDevices {
                demux_ids_with_video: list.iter().map(|d| d.0).collect(),
                all_demux_ids: vec![],
                allocated_heights: list.iter().map(|d| d.1).collect(),
            }),
            ..Default::default()
        });
        sx::idle();
        let told = devices_told(&g);
        // a change is told once, each device as the SFU says
        sx::check!(told.len() == (now != list) as usize);
        for (d, _) in told {
            for d in d {
                let h = list.iter().find(|l| l.0 == d.demux_id).map(|l| l.1);
                sx::check!(d.forwarding_video == Some(h.is_some()));
                sx::check!(d.server_allocated_height as u32 == h.unwrap_or(0));
            }
            sx::cover!();
        }
        now = list;
    }
}
//@ harness bound="lists=2_of_0-3devices"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_devices() {
    let mut g = G::joined(None, None);
    let mut shown: Vec<(DemuxId, UserId, SystemTime)> = vec![];
    let mut members: HashSet<UserId> = HashSet::new();
    let mut first = true;
    g.take();
    for n in 0..2 {
        g.advance(SEC);
        g.take();
        // each device's user, or nobody known
        let mut d = vec![];
        for id in [ME, D[0], D[1], 0x400] {
            let u = match sx::conc(sx::pick(0, if id == ME { 1 } else { 2 })) {
                0 => continue,
                _ if id == ME => 1,
                1 => 0,
                _ => [2, 3, 2][(id >> 8) as usize - 2],
            };
            d.push((id, u));
        }
        g.present(&d);
        let mut devices = None;
        let mut peek = None;
        for e in g.take() {
            match e {
                Ev::Devices(d, RemoteDevicesChangedReason::DemuxIdsChanged) => {
                    sx::check!(devices.is_none());
                    devices = Some(d);
                }
                Ev::Peek(p, u) => {
                    sx::check!(peek.is_none());
                    sx::check!(p.devices.len() == d.len());
                    peek = Some(u);
                }
                _ => {}
            }
        }
        // the devices of known users, without this one, in order; each since it came
        let want: Vec<_> = d.iter().filter(|d| d.0 != ME && d.1 != 0).collect();
        let ids = |v: &[(DemuxId, UserId, SystemTime)]| v.iter().map(|d| d.0).collect::<HashSet<_>>();
        let same = ids(&shown) == want.iter().map(|d| d.0).collect();
        sx::check!(devices.is_none() == same);
        if let Some(l) = devices {
            sx::check!(l.len() == want.len());
            for (l, w) in l.iter().zip(&want) {
                sx::check!(l.demux_id == w.0 && l.user_id == user(w.1));
                let old = shown.iter().find(|s| s.0 == w.0);
                match old {
                    Some(s) => sx::check!(l.added_time == s.2),
                    None => sx::check!(shown.iter().all(|s| s.2 < l.added_time)),
                }
            }
            shown = l.into_iter().map(|l| (l.demux_id, l.user_id, l.added_time)).collect();
            sx::cover!(n == 1);
        }
        // the application hears of changes of users
        let users: HashSet<_> = d.iter().filter(|d| d.1 != 0).map(|d| user(d.1)).collect();
        sx::check!(peek.is_some() == (first || users != members));
        if let Some(p) = peek {
            sx::check!(p == users);
        }
        members = users;
        first = false;
    }
}
