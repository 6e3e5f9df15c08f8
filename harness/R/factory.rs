//@ property=F01
//@ with=pc,devices
// What the factory makes of what it is given, and how it drives the audio devices.
use crate::{hx_devices as devices, rc};
use ringrtc::webrtc;
use ringrtc::webrtc::media::*;
use ringrtc::webrtc::peer_connection_factory::*;
use ringrtc::webrtc::peer_connection_observer::*;
use ringrtc::webrtc::ptr::{Borrowed, OwnedRc};
use std::cell::RefCell;
use std::ffi::{CStr, c_char, c_void};

const OWNER: usize = 0x70000;
const PC: usize = 0x70010;
const AUDIO: usize = 0x70020;
const VIDEO: usize = 0x70030;
const SOURCE: usize = 0x70040;
const NATIVE: usize = 0x70050;

#[repr(C)]
#[derive(Clone, Copy)]
struct RawAudio {
    high_pass: bool,
    aec: bool,
    ns: bool,
    agc: bool,
    adm: usize,
    callbacks: usize,
    free: unsafe extern "C" fn(usize),
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawJitter {
    max_packets: i32,
    min_delay: i32,
    max_delay: i32,
    fast: bool,
}
#[repr(C)]
struct RawServer {
    username: *const c_char,
    password: *const c_char,
    hostname: *const c_char,
    urls: *const *const c_char,
    count: usize,
}
#[repr(C)]
struct RawServers {
    servers: *const RawServer,
    count: usize,
}
#[derive(Clone, Default, PartialEq)]
struct Made {
    factory: usize,
    observer: usize,
    kind: u8,
    jitter: [i32; 3],
    fast: bool,
    interval: i32,
    servers: Vec<([Vec<u8>; 3], Vec<Vec<u8>>)>,
    audio: usize,
    video: usize,
}
#[derive(Default)]
struct State {
    refuse: bool,
    factory: Option<(RawAudio, bool, Vec<u8>)>,
    made: Vec<Made>,
    asked: Vec<(usize, usize)>,
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
}
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    S.with(|s| f(&mut s.borrow_mut()))
}
/// A new object, unless WebRTC refuses.
fn make(p: usize) -> usize {
    if st(|s| s.refuse) { 0 } else { rc::new(p as *const c_void) as usize }
}
fn text(p: *const c_char) -> Vec<u8> {
    unsafe { CStr::from_ptr(p) }.to_bytes().to_vec()
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnectionFactory(a: *const RawAudio, inject: bool, trials: *const c_char) -> usize {
    let a = unsafe { *a };
    st(|s| s.factory = Some((a, inject, text(trials))));
    make(OWNER)
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnectionFactoryWrapper(native: usize) -> usize {
    // WebRTC takes its own reference
    sx::check!(native == NATIVE && rc::count(native as *const c_void) == 1);
    make(OWNER)
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createPeerConnection(
    factory: usize,
    observer: usize,
    kind: u8,
    jitter: *const RawJitter,
    interval: i32,
    servers: *const RawServers,
    audio: usize,
    video: usize,
) -> usize {
    let j = unsafe { *jitter };
    let s = unsafe { &*servers };
    let servers = (0..s.count)
        .map(|k| {
            let s = unsafe { &*s.servers.add(k) };
            let urls = (0..s.count).map(|k| text(unsafe { *s.urls.add(k) })).collect();
            ([text(s.username), text(s.password), text(s.hostname)], urls)
        })
        .collect();
    st(|st| {
        st.made.push(Made {
            factory,
            observer,
            kind,
            jitter: [j.max_packets, j.min_delay, j.max_delay],
            fast: j.fast,
            interval,
            servers,
            audio,
            video,
        })
    });
    make(PC)
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createAudioTrack(factory: usize) -> usize {
    st(|s| s.asked.push((factory, 0)));
    make(AUDIO)
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createVideoSource() -> usize {
    make(SOURCE)
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createVideoTrack(factory: usize, source: usize) -> usize {
    st(|s| s.asked.push((factory, source)));
    make(VIDEO)
}
fn count(p: usize) -> i32 {
    rc::count(p as *const c_void)
}
fn arc<T: webrtc::RefCounted>(p: usize) -> webrtc::Arc<T> {
    webrtc::Arc::from_owned(unsafe { OwnedRc::from_ptr(rc::new(p as *const T)) })
}
/// A factory around one that is there, without audio devices of ours.
fn wrapped() -> PeerConnectionFactory {
    let f = unsafe { PeerConnectionFactory::from_native_factory(arc(NATIVE)) };
    sx::check!(count(NATIVE) == 0);
    f
}
struct Nobody;
impl PeerConnectionObserverTrait for Nobody {
    fn log_id(&self) -> &dyn std::fmt::Display {
        &"x"
    }
    fn handle_ice_candidate_gathered(
        &mut self,
        _: ringrtc::core::signaling::IceCandidate,
        _: &str,
        _: Option<TransportProtocol>,
    ) -> anyhow::Result<()> {
        Ok(())
    }
    fn handle_ice_candidate_removed(&mut self, _: std::net::SocketAddr) -> anyhow::Result<()> {
        Ok(())
    }
    fn handle_ice_connection_state_changed(&mut self, _: IceConnectionState) -> anyhow::Result<()> {
        Ok(())
    }
    fn handle_ice_network_route_changed(&mut self, _: NetworkRoute) -> anyhow::Result<()> {
        Ok(())
    }
}
fn word() -> String {
    let b = sx::bytes::<2>();
    sx::assume(b.iter().all(|b| (1..128).contains(b)));
    String::from_utf8(b.to_vec()).unwrap()
}
//@ harness bound="0-2_servers_of_0-2_urls,texts_of_2_characters,any_numbers,3_kinds"
#[unsafe(no_mangle)]
pub extern "C" fn hx_f_connection() {
    crate::hx_pc::observers_work();
    let f = wrapped();
    let n = sx::conc(sx::pick(0, 2)) as usize;
    let mut servers = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let t = [word(), word(), word()];
        let k = sx::conc(sx::pick(0, 2));
        let urls: Vec<String> = (0..k).map(|_| word()).collect();
        want.push((t.clone().map(String::into_bytes), urls.iter().map(|u| u.clone().into_bytes()).collect()));
        let [a, b, c] = t;
        // what is kept elsewhere is as good
        servers.push(IceServer::new(a, b, c, urls).clone());
    }
    let j = AudioJitterBufferConfig {
        max_packets: sx::u32() as i32,
        min_delay_ms: sx::u32() as i32,
        max_target_delay_ms: sx::u32() as i32,
        fast_accelerate: sx::bool(),
    };
    let kind = sx::conc(sx::pick(0, 2)) as u8;
    let interval = sx::u32() as i32;
    let video = sx::concb(sx::bool());
    let refuse = sx::concb(sx::bool());
    let audio = AudioTrack::new(arc(AUDIO), None);
    let track = video.then(|| VideoTrack::new(arc(VIDEO), None));
    let o = PeerConnectionObserver::new(
        Borrowed::from_ptr(Box::into_raw(Box::new(Nobody))),
        true,
        true,
        true,
    )
    .unwrap();
    let observer = crate::hx_pc::OBSERVER;
    st(|s| s.refuse = refuse);
    let r = f.create_peer_connection(
        o,
        match kind {
            0 => RffiPeerConnectionKind::Direct,
            1 => RffiPeerConnectionKind::Relayed,
            _ => RffiPeerConnectionKind::GroupCall,
        },
        &j,
        interval,
        &servers,
        audio,
        track,
    );
    let m = st(|s| s.made.clone());
    sx::check!(m.len() == 1);
    let m = m.into_iter().next().unwrap();
    sx::check!(m.servers == want);
    sx::check!(m.jitter == [j.max_packets, j.min_delay_ms, j.max_target_delay_ms]);
    sx::check!(m.fast == j.fast_accelerate && m.interval == interval && m.kind == kind);
    sx::check!(m.factory == OWNER && m.observer == observer);
    sx::check!(m.audio == AUDIO && m.video == if video { VIDEO } else { 0 });
    // its tracks are WebRTC's own
    sx::check!(count(AUDIO) == 0 && count(VIDEO) == 0);
    sx::check!(r.is_ok() != refuse);
    let gone = |p: usize| rc::gone().contains(&p);
    // the observer and the factory last as long as the connection
    sx::check!(gone(observer) == refuse);
    drop(f);
    sx::check!(gone(OWNER) == refuse);
    drop(r);
    sx::check!(gone(observer) && gone(OWNER) && gone(PC) != refuse);
    sx::cover!(n == 2 && !refuse);
}
//@ harness bound="3_things_made_or_refused"
#[unsafe(no_mangle)]
pub extern "C" fn hx_f_tracks() {
    let f = wrapped();
    let refuse = sx::concb(sx::bool());
    let op = sx::conc(sx::pick(0, 2));
    // (a track needs a source)
    let source = (op == 1).then(|| f.create_outgoing_video_source().unwrap());
    st(|s| s.refuse = refuse);
    match op {
        0 => {
            let t = f.create_outgoing_audio_track();
            sx::check!(t.is_ok() != refuse && st(|s| s.asked.clone()) == [(OWNER, 0)]);
            if let Ok(t) = t {
                sx::check!(t.rffi().as_borrowed().as_ptr() as usize == AUDIO && count(AUDIO) == 1);
                drop(f);
                // the track needs the factory's threads
                sx::check!(count(OWNER) == 1);
                drop(t);
                sx::check!(rc::gone() == [NATIVE, AUDIO, OWNER]);
                sx::cover!();
            }
        }
        1 => {
            let t = f.create_outgoing_video_track(source.as_ref().unwrap());
            sx::check!(t.is_ok() != refuse && st(|s| s.asked.clone()) == [(OWNER, SOURCE)]);
            sx::check!(count(SOURCE) == 1);
            if let Ok(t) = t {
                sx::check!(t.rffi().as_borrowed().as_ptr() as usize == VIDEO && count(VIDEO) == 1);
                drop(f);
                sx::check!(count(OWNER) == 1);
                drop(t);
                sx::check!(rc::gone() == [NATIVE, VIDEO, OWNER]);
                sx::cover!();
            }
        }
        _ => {
            let s = f.create_outgoing_video_source();
            sx::check!(s.is_ok() != refuse);
            if let Ok(s) = s {
                sx::check!(s.rffi().as_borrowed().as_ptr() as usize == SOURCE && count(SOURCE) == 1);
                drop(s);
                sx::check!(count(SOURCE) == 0);
            }
        }
    }
}
/// What WebRTC does with the devices, through the table of functions it is given.
struct Cpp {
    adm: usize,
    table: usize,
    free: unsafe extern "C" fn(usize),
}
impl Cpp {
    /// The n-th function of the table, as WebRTC's header has them.
    fn f<T: Copy>(&self, n: usize) -> T {
        assert!(size_of::<T>() == size_of::<usize>());
        unsafe { *((self.table + n * size_of::<usize>()) as *const T) }
    }
    fn int(&self, n: usize) -> i32 {
        self.f::<extern "C" fn(usize) -> i32>(n)(self.adm)
    }
    fn short(&self, n: usize) -> i16 {
        self.f::<extern "C" fn(usize) -> i16>(n)(self.adm)
    }
    fn flag(&self, n: usize) -> bool {
        self.f::<extern "C" fn(usize) -> bool>(n)(self.adm)
    }
    fn out(&self, n: usize) -> (i32, bool) {
        let mut b = true;
        (self.f::<extern "C" fn(usize, *mut bool) -> i32>(n)(self.adm, &mut b), b)
    }
    fn set(&self, n: usize, v: u32) -> i32 {
        self.f::<extern "C" fn(usize, u32) -> i32>(n)(self.adm, v)
    }
    fn name(&self, n: usize, k: u16) -> Option<(Vec<u8>, Vec<u8>)> {
        let (mut a, mut b) = ([1u8; 128], [1u8; 128]);
        let r = self.f::<extern "C" fn(usize, u16, *mut u8, *mut u8) -> i32>(n)(
            self.adm,
            k,
            a.as_mut_ptr(),
            b.as_mut_ptr(),
        );
        (r == 0).then(|| (text(a.as_ptr() as _), text(b.as_ptr() as _)))
    }
}
const INIT: usize = 1;
const TERMINATE: usize = 2;
const INITIALIZED: usize = 3;
const COUNT: [usize; 2] = [5, 4];
const NAME: [usize; 2] = [7, 6];
const AVAILABLE: [usize; 2] = [11, 8];
const PREPARE: [usize; 2] = [12, 9];
const PREPARED: [usize; 2] = [13, 10];
const START: [usize; 2] = [17, 14];
const STOP: [usize; 2] = [18, 15];
const RUNS: [usize; 2] = [19, 16];
const SPEAKER_MIC: [usize; 4] = [20, 21, 22, 23];
/// volume, mute, stereo: asked whether they can be had
const EXTRAS: [usize; 6] = [24, 29, 34, 37, 40, 43];
const SETTERS: [usize; 6] = [25, 30, 35, 38, 41, 44];
const DELAY: usize = 46;

fn factory(works: bool, counts: [usize; 2]) -> (PeerConnectionFactory, Cpp) {
    devices::plug(works, counts);
    let [high_pass, aec, ns, agc] = [sx::bool(), sx::bool(), sx::bool(), sx::bool()];
    let config = AudioConfig {
        high_pass_filter_enabled: high_pass,
        aec_enabled: aec,
        ns_enabled: ns,
        agc_enabled: agc,
    };
    let inject = sx::bool();
    let trials = word();
    let f = PeerConnectionFactory::new(&config, inject, &trials, None).unwrap();
    sx::idle();
    let (a, i, t) = st(|s| s.factory.clone()).unwrap();
    sx::check!((a.high_pass, a.aec, a.ns, a.agc) == (high_pass, aec, ns, agc));
    sx::check!(i == inject && t == trials.as_bytes());
    sx::check!((a.adm != 0) == works);
    (f, Cpp { adm: a.adm, table: a.callbacks, free: a.free })
}
//@ harness bound="recording_or_playing,0-2_devices_of_each,the_platform_failing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_f_table() {
    let works = sx::concb(sx::bool());
    let counts = [(); 2].map(|_| sx::conc(sx::pick(0, 2)) as usize);
    let (f, cpp) = factory(works, counts);
    let k = sx::conc(sx::pick(0, 1)) as usize;
    let input = k == 0;
    if !works {
        // there are no devices, and nobody crashes
        sx::check!(cpp.int(INIT) == -1 && !cpp.flag(INITIALIZED));
        sx::check!(cpp.short(COUNT[k]) == -1 && cpp.name(NAME[k], 0).is_none());
        sx::check!(cpp.int(PREPARE[k]) == -1 && cpp.int(START[k]) == -1 && !cpp.flag(RUNS[k]));
        unsafe { (cpp.free)(cpp.adm) };
        drop(f);
        sx::cover!();
        return;
    }
    sx::check!(cpp.int(INIT) == 0 && cpp.flag(INITIALIZED));
    let listed = if counts[k] == 0 { 0 } else { counts[k] + 1 };
    sx::check!(cpp.short(COUNT[k]) as usize == listed);
    let want = [("default (A)", "ida"), ("A", "ida"), ("B", "idb")];
    for n in 0..4 {
        let w = want.get(n).filter(|_| n < listed);
        let got = cpp.name(NAME[k], n as u16);
        sx::check!(got == w.map(|w| (w.0.as_bytes().to_vec(), w.1.as_bytes().to_vec())));
    }
    for n in SPEAKER_MIC {
        sx::check!(if n % 2 == 0 { cpp.int(n) == 0 } else { cpp.flag(n) });
    }
    for n in EXTRAS {
        sx::check!(cpp.out(n) == (0, false));
    }
    for n in SETTERS {
        sx::check!(cpp.set(n, 0) == -1);
    }
    sx::check!(cpp.out(AVAILABLE[k]).0 == 0);
    let state = |on: bool, runs: bool| {
        sx::check!(cpp.flag(PREPARED[k]) == on && cpp.flag(RUNS[k]) == runs);
        // nothing of the other kind
        sx::check!(!cpp.flag(PREPARED[1 - k]) && !cpp.flag(RUNS[1 - k]));
    };
    state(false, false);
    sx::check!(cpp.int(PREPARE[k]) == 0);
    sx::idle();
    state(true, false);
    sx::check!(cpp.int(START[k]) == 0);
    sx::idle();
    state(true, true);
    // the default one
    let open = devices::open_streams();
    sx::check!(open == if listed > 0 { vec![(0x11, input, true)] } else { vec![] });
    sx::cover!(listed > 0);
    sx::check!(cpp.int(STOP[k]) == 0);
    sx::idle();
    state(false, false);
    sx::check!(devices::open_streams().iter().all(|s| !s.2));
    sx::check!(cpp.int(TERMINATE) == 0);
    // the devices are let go when both are done with them
    let first = sx::concb(sx::bool());
    if first {
        drop(f);
        sx::idle();
        sx::check!(devices::in_use());
        unsafe { (cpp.free)(cpp.adm) };
    } else {
        unsafe { (cpp.free)(cpp.adm) };
        sx::idle();
        sx::check!(devices::in_use());
        drop(f);
    }
    sx::idle();
    sx::check!(!devices::in_use());
}
//@ harness bound="recording_or_playing,0-2_devices,any_choice,the_platform_failing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_f_devices() {
    let works = sx::concb(sx::bool());
    let n = sx::conc(sx::pick(0, 2)) as usize;
    let k = sx::conc(sx::pick(0, 1)) as usize;
    let (mut f, cpp) = factory(works, [n, n]);
    let list = if k == 0 { f.get_audio_recording_devices() } else { f.get_audio_playout_devices() };
    sx::check!(list.is_ok() == works);
    sx::check!(f.audio_backend().as_deref() == works.then_some("stand-in"));
    if let Ok(l) = &list {
        let names: Vec<&str> = l.iter().map(|d| &d.name[..]).collect();
        let all = ["default (A)", "A", "B"];
        sx::check!(names == all[..if n > 0 { n + 1 } else { 0 }]);
    }
    // any of them, by its place or by what it is called
    let choice = sx::conc(sx::pick(0, 3)) as usize;
    let by_id = sx::concb(sx::bool());
    let id = ["", "ida", "idb", "idz"][choice];
    let r = match (k, by_id) {
        (0, false) => f.set_audio_recording_device(choice),
        (0, true) => f.set_audio_recording_device_by_id(id),
        (_, false) => f.set_audio_playout_device(choice),
        (_, true) => f.set_audio_playout_device_by_id(id),
    };
    let there = n > 0 && choice <= n;
    if !works || (there && !(by_id && choice == 0)) {
        sx::check!(r.is_ok() == works);
    }
    if !works {
        sx::check!(f.set_audio_warmup(true).is_err() && f.set_audio_warmup(false).is_err());
        sx::check!(f.set_input_voice_processing_enabled(true).is_err());
        return;
    }
    sx::check!(cpp.int(PREPARE[k]) == 0 && cpp.int(START[k]) == 0);
    sx::idle();
    if there {
        let device = if choice == 2 { 0x22 } else { 0x11 };
        sx::check!(devices::open_streams() == [(device, k == 0, true)]);
        sx::cover!(choice == 2);
    }
}
//@ harness bound="warm-up_and_its_end,streams_failing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_f_warmup() {
    let (mut f, cpp) = factory(true, [1, 1]);
    let fails = sx::concb(sx::bool());
    if fails {
        devices::no_streams();
    }
    let r = f.set_audio_warmup(true);
    sx::idle();
    sx::check!(r.is_ok() || fails);
    // it records, for nobody
    sx::check!(devices::open_streams() == if fails { vec![] } else { vec![(0x11, true, true)] });
    sx::check!(!cpp.flag(RUNS[0]));
    sx::check!(f.set_audio_warmup(false).is_ok());
    sx::idle();
    sx::check!(devices::open_streams().iter().all(|s| !s.2));
    sx::cover!(!fails);
}
