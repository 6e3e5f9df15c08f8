//@ property=O01
// What a peer connection is told reaches WebRTC, and what WebRTC tells reaches its observer.
use ringrtc::common::units::DataRate;
use ringrtc::core::signaling;
use ringrtc::webrtc;
use ringrtc::webrtc::ice_gatherer::IceGatherer;
use ringrtc::webrtc::media::*;
use ringrtc::webrtc::network::RffiIpPort;
use ringrtc::webrtc::peer_connection::*;
use ringrtc::webrtc::peer_connection_factory::RffiPeerConnectionFactoryOwner;
use ringrtc::webrtc::peer_connection_observer::*;
use ringrtc::webrtc::ptr::{Borrowed, Owned, OwnedRc, Unique};
use ringrtc::webrtc::rtp;
use std::cell::RefCell;
use std::ffi::{CStr, c_char, c_void};
use std::net::{IpAddr, SocketAddr};

const PC: usize = 0x40000;
const OWNER: usize = 0x40010;
const PCO: usize = 0x40020;
const GATHERER: usize = 0x40030;
const TRACK: usize = 0x40040;
const SOURCE: usize = 0x40050;
const SEEN: usize = 0x40060;

#[derive(Default)]
struct State {
    calls: Vec<(&'static str, Vec<u64>, Vec<u8>)>,
    ok: bool,
    levels: (u16, Vec<(u32, u16)>),
    bwe: u32,
    gatherer: usize,
    observer: (usize, Vec<usize>, [bool; 3]),
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
}
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    S.with(|s| f(&mut s.borrow_mut()))
}
fn log(name: &'static str, args: Vec<u64>, bytes: Vec<u8>) -> bool {
    st(|s| {
        s.calls.push((name, args, bytes));
        s.ok
    })
}
fn bytes<T: Copy>(p: *const T, n: usize) -> Vec<T> {
    if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() }
}
fn cstr(p: *const c_char) -> Vec<u8> {
    unsafe { CStr::from_ptr(p) }.to_bytes().to_vec()
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawIp {
    v6: u8,
    address: [u8; 16],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawIpPort {
    ip: RawIp,
    port: u16,
}
fn octets(ip: &RawIp) -> Vec<u8> {
    if ip.v6 == 0 { ip.address[..4].to_vec() } else { ip.address.to_vec() }
}
fn ip_bytes(ip: &IpAddr) -> Vec<u8> {
    match ip {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    }
}
fn any_addr() -> SocketAddr {
    let ip = if sx::concb(sx::bool()) {
        IpAddr::from(sx::bytes::<4>())
    } else {
        IpAddr::from(sx::bytes::<16>())
    };
    SocketAddr::new(ip, sx::u16())
}

#[unsafe(no_mangle)]
pub extern "C" fn Rust_updateTransceivers(p: usize, ids: *const u32, n: usize) -> bool {
    let ids = bytes(ids, n);
    let mut a = vec![p as u64];
    a.extend(ids.iter().map(|x| *x as u64));
    log("transceivers", a, vec![])
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_createSendOnlyTransceiver(p: usize) -> bool {
    log("send-only", vec![p as u64], vec![])
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setOutgoingMediaEnabled(p: usize, on: bool) {
    log("outgoing", vec![p as u64, on as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setIncomingMediaEnabled(p: usize, on: bool) -> bool {
    log("incoming", vec![p as u64, on as u64], vec![])
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setAudioPlayoutEnabled(p: usize, on: bool) {
    log("playout", vec![p as u64, on as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setAudioRecordingEnabled(p: usize, on: bool) {
    log("recording", vec![p as u64, on as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_addIceCandidateFromSdp(p: usize, sdp: *const c_char) -> bool {
    log("ice-sdp", vec![p as u64], cstr(sdp))
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_addIceCandidateFromServer(
    p: usize,
    ip: RawIp,
    port: u16,
    tcp: bool,
    host: *const c_char,
) -> bool {
    let mut b = octets(&ip);
    if !host.is_null() {
        b.push(0);
        b.extend(cstr(host));
    }
    log("ice-server", vec![p as u64, port as u64, tcp as u64, !host.is_null() as u64], b)
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_removeIceCandidates(p: usize, a: *const RawIpPort, n: usize) -> bool {
    let l = bytes(a, n);
    let mut args = vec![p as u64];
    args.extend(l.iter().map(|x| x.port as u64));
    log("ice-remove", args, l.iter().flat_map(|x| octets(&x.ip)).collect())
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_createSharedIceGatherer(p: usize) -> usize {
    log("gatherer", vec![p as u64], vec![]);
    let g = st(|s| s.gatherer);
    if g != 0 {
        rc::new(g as *const c_void);
    }
    g
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_useSharedIceGatherer(p: usize, g: usize) -> bool {
    log("use-gatherer", vec![p as u64, g as u64], vec![])
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setSendBitrates(p: usize, min: i32, start: i32, max: i32) {
    let a = [min, start, max].map(|x| x as u32 as u64);
    log("rates", vec![p as u64, a[0], a[1], a[2]], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_sendRtp(
    p: usize,
    pt: u8,
    seq: u16,
    ts: u32,
    ssrc: u32,
    data: *const u8,
    n: usize,
) -> bool {
    log("rtp", vec![p as u64, pt as u64, seq as u64, ts as u64, ssrc as u64], bytes(data, n))
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_receiveRtp(p: usize, pt: u8, on: bool) -> bool {
    log("receive", vec![p as u64, pt as u64, on as u64], vec![])
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_getAudioLevels(
    p: usize,
    captured: *mut u16,
    out: *mut (u32, u16),
    cap: usize,
    n: *mut usize,
) {
    log("levels", vec![p as u64], vec![]);
    st(|s| unsafe {
        *captured = s.levels.0;
        let k = s.levels.1.len().min(cap);
        for i in 0..k {
            let (id, level) = s.levels.1[i];
            let at = out.add(i) as *mut u8;
            (at as *mut u32).write(id);
            (at.add(4) as *mut u16).write(level);
        }
        *n = k;
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_getLastBandwidthEstimateBps(p: usize) -> u32 {
    log("bwe", vec![p as u64], vec![]);
    st(|s| s.bwe)
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setRtpPacketObserver(p: usize, o: usize) {
    log("rtp-observer", vec![p as u64, o as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_closePeerConnection(p: usize) {
    log("close", vec![p as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_regatherOnAllNetworks(p: usize) {
    log("regather", vec![p as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setVideoTrackEnabled(t: usize, on: bool) {
    log("track", vec![t as u64, on as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setAudioTrackEnabled(t: usize, on: bool) {
    log("audio-track", vec![t as u64, on as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_setVideoTrackContentHint(t: usize, on: bool) {
    log("hint", vec![t as u64, on as u64], vec![]);
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_adaptOutputVideoFormat(t: usize, w: u16, h: u16, fps: u8) {
    log("adapt", vec![t as u64, w as u64, h as u64, fps as u64], vec![]);
}

/// For the factory.
pub const OBSERVER: usize = PCO;
pub fn observers_work() {
    st(|s| s.ok = true);
}
fn rc_new<T: webrtc::RefCounted>(p: usize) -> webrtc::Arc<T> {
    webrtc::Arc::from_owned(unsafe { OwnedRc::from_ptr(rc::new(p as *const T)) })
}
fn pc() -> PeerConnection {
    PeerConnection::new(rc_new(PC), None, None)
}
fn calls() -> Vec<(&'static str, Vec<u64>, Vec<u8>)> {
    st(|s| std::mem::take(&mut s.calls))
}
fn one(name: &'static str, args: &[u64], b: &[u8]) {
    let c = calls();
    sx::check!(c.len() == 1);
    sx::check!(c[0].0 == name);
    sx::check!(c[0].1[0] == PC as u64 && &c[0].1[1..] == args);
    sx::check!(c[0].2 == b);
}

//@ harness bound="every_switch_and_list_operation,any_values,lists_up_to_3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_switches() {
    let ok = sx::concb(sx::bool());
    st(|s| s.ok = ok);
    let p = pc();
    let on = sx::bool();
    match sx::pick(0, 11) {
        0 => {
            let n = sx::pick(0, 3);
            let ids: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
            sx::check!(p.update_transceivers(&ids).is_ok() == ok);
            one("transceivers", &ids.iter().map(|x| *x as u64).collect::<Vec<_>>(), &[]);
        }
        1 => {
            sx::check!(p.create_send_only_transceiver() == ok);
            one("send-only", &[], &[]);
        }
        2 => {
            p.set_outgoing_media_enabled(on);
            one("outgoing", &[on as u64], &[]);
        }
        3 => {
            p.set_incoming_media_enabled(on);
            one("incoming", &[on as u64], &[]);
        }
        4 => {
            p.set_audio_playout_enabled(on);
            one("playout", &[on as u64], &[]);
        }
        5 => {
            p.set_audio_recording_enabled(on);
            one("recording", &[on as u64], &[]);
        }
        6 => {
            p.close();
            one("close", &[], &[]);
        }
        7 => {
            p.regather_on_all_networks();
            one("regather", &[], &[]);
        }
        8 => {
            let pt = sx::u8();
            sx::check!(p.receive_rtp(pt, on).is_ok() == ok);
            one("receive", &[pt as u64, on as u64], &[]);
        }
        9 => {
            let bwe = sx::u32();
            st(|s| s.bwe = bwe);
            sx::check!(p.get_last_bandwidth_estimate() == DataRate::from_bps(bwe as u64));
            one("bwe", &[], &[]);
        }
        10 => {
            let (pt, seqnum, timestamp, ssrc) = (sx::u8(), sx::u16(), sx::u32(), sx::u32());
            let data = sx::vec(sx::pick(0, 3) as usize);
            let h = rtp::Header { pt, seqnum, timestamp, ssrc };
            sx::check!(p.send_rtp(h, &data).is_ok() == ok);
            one("rtp", &[pt as u64, seqnum as u64, timestamp as u64, ssrc as u64], &data);
        }
        _ => {
            p.set_rtp_packet_observer(Borrowed::from_ptr(SEEN as *const _));
            one("rtp-observer", &[SEEN as u64], &[]);
        }
    }
    drop(p);
    sx::check!(calls().is_empty());
    sx::check!(rc::gone() == [PC]);
    sx::cover!();
}

//@ harness bound="each_rate_absent_or_any_up_to_2^31-1"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_rates() {
    let any = || {
        if sx::concb(sx::bool()) { Some(DataRate::from_bps((sx::u32() >> 1) as u64)) } else { None }
    };
    let r = SendRates { min: any(), start: any(), max: any() };
    let num = |x: &Option<DataRate>| match x {
        Some(r) => r.as_bps(),
        None => u32::MAX as u64,
    };
    let want = [num(&r.min), num(&r.start), num(&r.max)];
    let p = pc();
    sx::check!(p.set_send_rates(r).is_ok());
    one("rates", &want, &[]);
    sx::cover!(want[0] == 0);
}

//@ harness bound="candidates_of_2_characters,any_server_address,up_to_2_removed"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_candidates() {
    let ok = sx::concb(sx::bool());
    st(|s| s.ok = ok);
    let p = pc();
    match sx::pick(0, 2) {
        0 => {
            let t = sx::ascii(2);
            let nul = t.as_bytes().contains(&0);
            let r = p.add_ice_candidate_from_sdp(&t);
            if nul {
                sx::check!(r.is_err() && calls().is_empty());
            } else {
                sx::check!(r.is_ok() == ok);
                one("ice-sdp", &[], t.as_bytes());
                sx::cover!();
            }
        }
        1 => {
            let a = any_addr();
            let host = sx::ascii(2);
            let (proto, tcp, tls) = match sx::pick(0, 2) {
                0 => (Protocol::Udp, 0, false),
                1 => (Protocol::Tcp, 1, false),
                _ => (Protocol::Tls(&host), 1, true),
            };
            let r = p.add_ice_candidate_from_server(a.ip(), a.port(), proto);
            if tls && host.as_bytes().contains(&0) {
                sx::check!(r.is_err() && calls().is_empty());
                return;
            }
            sx::check!(r.is_ok() == ok);
            let mut b = ip_bytes(&a.ip());
            if tls {
                b.push(0);
                b.extend(host.as_bytes());
                sx::cover!();
            }
            one("ice-server", &[a.port() as u64, tcp, tls as u64], &b);
        }
        _ => {
            let n = sx::pick(0, 2);
            let l: Vec<_> = (0..n).map(|_| any_addr()).collect();
            p.remove_ice_candidates(l.iter().copied());
            let ports: Vec<u64> = l.iter().map(|a| a.port() as u64).collect();
            let b: Vec<u8> = l.iter().flat_map(|a| ip_bytes(&a.ip())).collect();
            one("ice-remove", &ports, &b);
            sx::cover!(n == 2);
        }
    }
}

//@ harness bound="up_to_3_received_levels"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_levels() {
    let n = sx::pick(0, 3);
    let own = sx::u16();
    let l: Vec<(u32, u16)> = (0..n).map(|_| (sx::u32(), sx::u16())).collect();
    st(|s| s.levels = (own, l.clone()));
    let p = pc();
    let (a, b) = p.get_audio_levels();
    sx::check!(a == own && b.len() == l.len());
    for (x, y) in b.iter().zip(&l) {
        sx::check!((x.demux_id, x.level) == *y);
    }
    sx::cover!(n == 3);
}

//@ harness bound="any_gatherer_or_none,every_order_of_ownership"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_owners() {
    let ok = sx::concb(sx::bool());
    st(|s| {
        s.ok = ok;
        s.gatherer = if ok { GATHERER } else { 0 };
    });
    let owner: webrtc::Arc<RffiPeerConnectionFactoryOwner> = rc_new(OWNER);
    let o = if sx::concb(sx::bool()) { Some(owner.clone()) } else { None };
    let with_observer = sx::concb(sx::bool());
    let obs = if with_observer {
        Some(Unique::from(unsafe { Owned::from_ptr(PCO as *const RffiPeerConnectionObserver) }))
    } else {
        None
    };
    let p = PeerConnection::new(rc_new(PC), obs, o);
    drop(owner);
    match p.create_shared_ice_gatherer() {
        Ok(g) => {
            sx::check!(ok && rc::count(GATHERER as *const c_void) == 1);
            calls();
            sx::check!(p.use_shared_ice_gatherer(&g).is_ok());
            one("use-gatherer", &[GATHERER as u64], &[]);
            let again = IceGatherer::new(g.rffi().clone());
            drop(g);
            sx::check!(rc::count(GATHERER as *const c_void) == 1);
            drop(again);
            sx::check!(rc::count(GATHERER as *const c_void) == 0);
            sx::cover!();
        }
        Err(_) => sx::check!(!ok),
    }
    // the connection goes first, then its observer, and what owns the threads last
    drop(p);
    let gone: Vec<usize> = rc::gone().into_iter().filter(|x| *x != GATHERER).collect();
    let at = |x: usize| gone.iter().position(|y| *y == x);
    sx::check!(at(PC).is_some() && at(OWNER).is_some());
    sx::check!(gone.len() == 2 + with_observer as usize);
    if at(OWNER) > at(PC) {
        sx::cover!();
    }
    if with_observer {
        sx::check!(at(PCO) > at(PC));
    }
    sx::check!(rc::count(PC as *const c_void) == 0 && rc::count(OWNER as *const c_void) == 0);
}
//@ harness bound="a_connection_and_a_track_owned_alone"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_last() {
    // nobody else keeps the owner
    let p = PeerConnection::new(rc_new(PC), None, Some(rc_new(OWNER)));
    drop(p);
    sx::check!(rc::gone() == [PC, OWNER]);
    let t = VideoTrack::new(rc_new(TRACK), Some(rc_new(SEEN)));
    let (on, hint) = (sx::bool(), sx::bool());
    let t2 = t.clone();
    t.set_enabled(on);
    t2.set_content_hint(hint);
    sx::check!(
        calls()
            == [
                ("track", vec![TRACK as u64, on as u64], vec![]),
                ("hint", vec![TRACK as u64, hint as u64], vec![]),
            ]
    );
    drop(t);
    sx::check!(rc::gone().len() == 2);
    drop(t2);
    sx::check!(rc::gone() == [PC, OWNER, TRACK, SEEN]);
    let v = VideoSource::new(rc_new(SOURCE));
    let (w, h, f) = (sx::u16(), sx::u16(), sx::u8());
    v.adapt_output_format(w, h, f);
    sx::check!(calls() == [("adapt", vec![SOURCE as u64, w as u64, h as u64, f as u64], vec![])]);
    drop(v);
    sx::check!(rc::count(SOURCE as *const c_void) == 0);
    sx::cover!();
}

// ---- what WebRTC tells

#[unsafe(no_mangle)]
pub extern "C" fn Rust_createPeerConnectionObserver(
    o: usize,
    cbs: *const usize,
    encrypt: bool,
    event: bool,
    content: bool,
) -> usize {
    st(|s| {
        s.observer = (o, bytes(cbs, 12), [encrypt, event, content]);
        if s.ok { PCO } else { 0 }
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_deletePeerConnectionObserver(p: usize) {
    rc::note_gone(p);
}
#[derive(Default)]
struct Seen {
    got: Vec<(&'static str, Vec<u64>, Vec<u8>)>,
    fail: bool,
    give: usize,
    fill: Vec<u8>,
    keep: Vec<Box<dyn std::any::Any>>,
    frames: RefCell<Vec<(u32, u32, u32, Option<(u32, u32)>)>>,
}
impl Seen {
    fn see(&mut self, n: &'static str, a: Vec<u64>, b: Vec<u8>) -> anyhow::Result<()> {
        self.got.push((n, a, b));
        if self.fail { Err(anyhow::anyhow!("no")) } else { Ok(()) }
    }
}
impl PeerConnectionObserverTrait for Seen {
    fn log_id(&self) -> &dyn std::fmt::Display {
        &"x"
    }
    fn handle_ice_candidate_gathered(
        &mut self,
        c: signaling::IceCandidate,
        sdp: &str,
        relay: Option<TransportProtocol>,
    ) -> anyhow::Result<()> {
        sx::check!(c.v3_sdp().as_deref() == Some(sdp));
        sx::check!(c.removed_address().is_none());
        let relay = relay.map_or(9, |r| match r {
            TransportProtocol::Udp => 0,
            TransportProtocol::Tcp => 1,
            TransportProtocol::Tls => 2,
            TransportProtocol::Unknown => 3,
        });
        self.see("gathered", vec![relay], sdp.as_bytes().to_vec())
    }
    fn handle_ice_candidate_removed(&mut self, a: SocketAddr) -> anyhow::Result<()> {
        self.see("removed", vec![a.port() as u64], ip_bytes(&a.ip()))
    }
    fn handle_ice_connection_state_changed(&mut self, s: IceConnectionState) -> anyhow::Result<()> {
        // WebRTC's numbers
        let n = match s {
            IceConnectionState::New => 0,
            IceConnectionState::Checking => 1,
            IceConnectionState::Connected => 2,
            IceConnectionState::Completed => 3,
            IceConnectionState::Failed => 4,
            IceConnectionState::Disconnected => 5,
            IceConnectionState::Closed => 6,
            IceConnectionState::Max => 7,
        };
        self.see("state", vec![n], vec![])
    }
    fn handle_ice_network_route_changed(&mut self, r: NetworkRoute) -> anyhow::Result<()> {
        self.see(
            "route",
            vec![
                r.local_adapter_type as u64,
                r.local_adapter_type_under_vpn as u64,
                r.local_relayed as u64,
                r.local_relay_protocol as u64,
                r.remote_relayed as u64,
            ],
            vec![],
        )
    }
    fn handle_incoming_media_added(&mut self, s: MediaStream) -> anyhow::Result<()> {
        self.keep.push(Box::new(s));
        self.see("stream", vec![], vec![])
    }
    fn handle_incoming_audio_added(&mut self, t: AudioTrack) -> anyhow::Result<()> {
        t.set_enabled(true);
        self.keep.push(Box::new(t));
        self.see("audio", vec![], vec![])
    }
    fn handle_incoming_video_added(&mut self, t: VideoTrack, id: Option<u32>) -> anyhow::Result<()> {
        t.set_enabled(true);
        self.keep.push(Box::new(t));
        self.see("video", vec![id.is_some() as u64, id.unwrap_or(0) as u64], vec![])
    }
    fn handle_incoming_video_frame(
        &self,
        id: u32,
        m: VideoFrameMetadata,
        f: Option<VideoFrame>,
    ) -> anyhow::Result<()> {
        let raw: (u32, u32, u32) = unsafe { std::mem::transmute(m) };
        let f = f.map(|f| (f.width(), f.height()));
        self.frames.borrow_mut().push((id, raw.0, raw.1, f));
        Ok(())
    }
    fn get_media_ciphertext_buffer_size(&mut self, audio: bool, n: usize) -> usize {
        self.got.push(("ciphertext-size", vec![audio as u64, n as u64], vec![]));
        self.give
    }
    fn encrypt_media(&mut self, plain: &[u8], out: &mut [u8]) -> anyhow::Result<usize> {
        let n = self.fill.len().min(out.len());
        out[..n].copy_from_slice(&self.fill[..n]);
        let a = vec![out.len() as u64];
        self.see("encrypt", a, plain.to_vec())?;
        Ok(n)
    }
    fn get_media_plaintext_buffer_size(&mut self, id: u32, audio: bool, n: usize) -> usize {
        self.got.push(("plaintext-size", vec![id as u64, audio as u64, n as u64], vec![]));
        self.give
    }
    fn decrypt_media(&mut self, id: u32, c: &[u8], out: &mut [u8]) -> anyhow::Result<usize> {
        let n = self.fill.len().min(out.len());
        out[..n].copy_from_slice(&self.fill[..n]);
        let a = vec![id as u64, out.len() as u64];
        self.see("decrypt", a, c.to_vec())?;
        Ok(n)
    }
}
fn watch(o: &mut Seen) -> Vec<usize> {
    st(|s| s.ok = true);
    let flags = [sx::bool(), sx::bool(), sx::bool()];
    let p = o as *mut Seen;
    let w =
        PeerConnectionObserver::new(Borrowed::from_ptr(p), flags[0], flags[1], flags[2]).unwrap();
    let (at, cbs, f) = st(|s| s.observer.clone());
    sx::check!(at == p as usize);
    sx::check!(f == flags);
    // kept by whoever takes it
    let u = w.into_rffi();
    sx::check!(rc::gone().is_empty());
    sx::check!(u.borrow().as_ptr() as usize == PCO);
    drop(u);
    sx::check!(rc::gone() == [PCO]);
    cbs
}
unsafe fn f<F: Copy>(p: usize) -> F {
    unsafe { std::mem::transmute_copy(&p) }
}
#[repr(C)]
struct RawCandidate {
    sdp: *const c_char,
    relayed: bool,
    protocol: TransportProtocol,
}
fn protocol() -> TransportProtocol {
    [TransportProtocol::Udp, TransportProtocol::Tcp, TransportProtocol::Tls, TransportProtocol::Unknown]
        [sx::pick(0, 3) as usize]
}
//@ harness bound="every_ICE_event,any_values,failing_or_null_observer"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_ice_events() {
    let mut o = Box::new(Seen::default());
    o.fail = sx::concb(sx::bool());
    let cb = watch(&mut o);
    let null = sx::concb(sx::bool());
    let at = if null { 0 } else { &mut *o as *mut Seen as usize };
    let want: (&'static str, Vec<u64>, Vec<u8>);
    match sx::pick(0, 4) {
        0 => {
            let g: extern "C" fn(usize, *const RawCandidate) = unsafe { f(cb[0]) };
            let mut t = sx::vec(3);
            sx::assume(t[..2].iter().all(|b| (1..128).contains(b)));
            t[2] = 0;
            let relayed = sx::concb(sx::bool());
            let protocol = protocol();
            let c = RawCandidate { sdp: t.as_ptr() as *const c_char, relayed, protocol };
            g(at, &c);
            want = ("gathered", vec![if relayed { protocol as u64 } else { 9 }], t[..2].to_vec());
        }
        1 => {
            let g: extern "C" fn(usize, *const RawCandidate) = unsafe { f(cb[0]) };
            g(at, std::ptr::null());
            sx::check!(o.got.is_empty());
            return;
        }
        2 => {
            let g: extern "C" fn(usize, RffiIpPort) = unsafe { f(cb[1]) };
            let a = any_addr();
            g(at, a.into());
            want = ("removed", vec![a.port() as u64], ip_bytes(&a.ip()));
        }
        3 => {
            let g: extern "C" fn(usize, u32) = unsafe { f(cb[2]) };
            let s = sx::pick(0, 7);
            g(at, s as u32);
            want = ("state", vec![s], vec![]);
        }
        _ => {
            let g: extern "C" fn(usize, NetworkRoute, *const c_char, *const c_char) =
                unsafe { f(cb[3]) };
            let adapters = [
                NetworkAdapterType::Unknown,
                NetworkAdapterType::Wifi,
                NetworkAdapterType::Cellular5G,
            ];
            let r = NetworkRoute {
                local_adapter_type: adapters[sx::pick(0, 2) as usize],
                local_adapter_type_under_vpn: adapters[sx::pick(1, 2) as usize],
                local_relayed: sx::bool(),
                local_relay_protocol: TransportProtocol::Tls,
                remote_relayed: sx::bool(),
            };
            g(at, r, c"l".as_ptr(), c"r".as_ptr());
            want = (
                "route",
                vec![
                    r.local_adapter_type as u64,
                    r.local_adapter_type_under_vpn as u64,
                    r.local_relayed as u64,
                    2,
                    r.remote_relayed as u64,
                ],
                vec![],
            );
        }
    }
    if null {
        sx::check!(o.got.is_empty());
        sx::cover!();
    } else {
        sx::check!(o.got == [want]);
        sx::cover!();
    }
}
//@ harness bound="every_media_event,any_demux_id_and_size"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_media_events() {
    let mut o = Box::new(Seen::default());
    let cb = watch(&mut o);
    let at = &mut *o as *mut Seen as usize;
    match sx::pick(0, 3) {
        k @ (0 | 1) => {
            let g: extern "C" fn(usize, usize) = unsafe { f(cb[4 + k as usize]) };
            rc::new(TRACK as *const c_void);
            g(at, TRACK);
            sx::check!(o.got == [(if k == 0 { "stream" } else { "audio" }, vec![], vec![])]);
            sx::check!(calls().len() == k as usize);
        }
        2 => {
            let g: extern "C" fn(usize, usize, u32) = unsafe { f(cb[6]) };
            rc::new(TRACK as *const c_void);
            let id = sx::u32();
            g(at, TRACK, id);
            sx::check!(o.got == [("video", vec![(id != 0) as u64, id as u64], vec![])]);
            sx::check!(calls() == [("track", vec![TRACK as u64, 1], vec![])]);
        }
        _ => {
            let g: extern "C" fn(usize, u32, VideoFrameMetadata, usize) = unsafe { f(cb[7]) };
            let (id, w, h) = (sx::u32(), sx::u32(), sx::u32());
            let m: VideoFrameMetadata = unsafe { std::mem::transmute((w, h, 0u32)) };
            let with = sx::concb(sx::bool());
            if with {
                rc::new(TRACK as *const c_void);
            }
            g(at, id, m, if with { TRACK } else { 0 });
            let l = o.frames.borrow().clone();
            sx::check!(l == [(id, w, h, if with { Some((w, h)) } else { None })]);
            sx::check!(rc::count(TRACK as *const c_void) == 0);
            return;
        }
    }
    // held as long as the observer holds it, and no longer
    sx::check!(rc::count(TRACK as *const c_void) == 1);
    drop(o);
    sx::check!(rc::count(TRACK as *const c_void) == 0);
    sx::cover!();
}
type Encrypt = extern "C" fn(usize, *const u8, usize, *mut u8, usize, *mut usize) -> bool;
type Decrypt = extern "C" fn(usize, u32, *const u8, usize, *mut u8, usize, *mut usize) -> bool;
//@ harness bound="frames_up_to_3_bytes,buffers_up_to_4,each_pointer_null_or_not,failures"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_encryption() {
    let mut o = Box::new(Seen::default());
    let cb = watch(&mut o);
    o.fail = sx::concb(sx::bool());
    o.give = sx::u32() as usize;
    o.fill = sx::vec(sx::pick(0, 3) as usize);
    let null = sx::pick(0, 4);
    let at = if null == 1 { 0 } else { &mut *o as *mut Seen as usize };
    let (id, audio, size) = (sx::u32(), sx::bool(), sx::u32() as usize);
    let n = sx::pick(0, 3) as usize;
    let frame = sx::vec(n);
    let before = sx::bytes::<4>();
    let mut out = before;
    let cap = sx::pick(3, 4) as usize;
    let was = sx::u32() as usize;
    let mut len = was;
    let p = if null == 2 { std::ptr::null() } else { frame.as_ptr() };
    let q = if null == 3 { std::ptr::null_mut() } else { out.as_mut_ptr() };
    let l = if null == 4 { std::ptr::null_mut() } else { &mut len as *mut usize };
    let r;
    let want;
    if sx::concb(sx::bool()) {
        let g: extern "C" fn(usize, bool, usize) -> usize = unsafe { f(cb[8]) };
        sx::check!(g(at, audio, size) == if null == 1 { 0 } else { o.give });
        let e: Encrypt = unsafe { f(cb[9]) };
        r = e(at, p, n, q, cap, l);
        want = [
            ("ciphertext-size", vec![audio as u64, size as u64], vec![]),
            ("encrypt", vec![cap as u64], frame.clone()),
        ];
    } else {
        let g: extern "C" fn(usize, u32, bool, usize) -> usize = unsafe { f(cb[10]) };
        sx::check!(g(at, id, audio, size) == if null == 1 { 0 } else { o.give });
        let d: Decrypt = unsafe { f(cb[11]) };
        r = d(at, id, p, n, q, cap, l);
        want = [
            ("plaintext-size", vec![id as u64, audio as u64, size as u64], vec![]),
            ("decrypt", vec![id as u64, cap as u64], frame.clone()),
        ];
    }
    sx::check!(r == (null == 0 && !o.fail));
    if null == 0 {
        sx::check!(o.got == want);
    } else {
        sx::check!(o.got.len() == (null != 1) as usize);
        sx::check!(out == before);
    }
    // the length is reported only for what was done
    sx::check!(len == if r { o.fill.len() } else { was });
    if r {
        sx::check!(out[..o.fill.len()] == o.fill[..]);
        sx::cover!();
    }
    sx::check!(out[o.fill.len()..] == before[o.fill.len()..]);
}
