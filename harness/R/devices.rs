//@ property=V01
// Audio devices: which are offered and chosen, and where the samples go. Cubeb, which drives them, and
// WebRTC, which takes and gives samples, are stand-ins.
use ringrtc::webrtc::audio_device_module::AudioDeviceModule;
use ringrtc::webrtc::audio_device_module_utils::copy_and_truncate_string;
use ringrtc::webrtc::peer_connection_factory::{AudioDevice, AudioDeviceObserver};
use ringrtc::webrtc::ptr::Borrowed;
use std::ffi::{CStr, c_char, c_int, c_long, c_uint, c_void};
use std::sync::{Arc, Mutex};

const CTX: usize = 0x60000;
const INPUT: u32 = 1;
const OUTPUT: u32 = 2;
const ENABLED: u32 = 2;
const MULTIMEDIA: u32 = 1;
const VOICE: u32 = 2;
const RATE: u32 = 48_000;
const WINDOW: usize = 480;

#[repr(C)]
#[derive(Clone, Copy)]
struct Info {
    devid: *const c_void,
    device_id: *const c_char,
    friendly_name: *const c_char,
    group_id: *const c_char,
    vendor_name: *const c_char,
    device_type: c_uint,
    state: c_uint,
    preferred: c_uint,
    format: c_uint,
    default_format: c_uint,
    max_channels: c_uint,
    default_rate: c_uint,
    max_rate: c_uint,
    min_rate: c_uint,
    latency_lo: c_uint,
    latency_hi: c_uint,
}
#[repr(C)]
struct Collection {
    device: *mut Info,
    count: usize,
}
#[repr(C)]
struct Params {
    format: c_uint,
    rate: c_uint,
    channels: c_uint,
    layout: c_uint,
    prefs: c_uint,
    input_params: c_uint,
}
#[derive(Clone, Copy)]
struct Dev {
    id: usize,
    device_id: Option<&'static CStr>,
    name: Option<&'static CStr>,
    state: u32,
    preferred: u32,
}
type Data = unsafe extern "C" fn(*mut c_void, *mut c_void, *const c_void, *mut c_void, c_long) -> c_long;
struct Line {
    input: bool,
    device: usize,
    latency: u32,
    running: bool,
    alive: bool,
    data: Data,
    user: usize,
}
struct Cubeb {
    alive: bool,
    devices: [Vec<Dev>; 2],
    lines: Vec<Line>,
    changed: [Option<(unsafe extern "C" fn(*mut c_void, *mut c_void), usize)>; 2],
    lists: u32,
    min_latency: Option<u32>,
    fail: u32,
    // what WebRTC was given, and what it gives
    got: Vec<Vec<i16>>,
    got_ret: i32,
    give: [i16; 4],
    given: usize,
    give_n: usize,
    give_ret: i32,
}
// what fails if asked for
const INIT: u32 = 1;
const REGISTER_IN: u32 = 2;
const REGISTER_OUT: u32 = 4;
const STREAM: u32 = 8;
static C: Mutex<Cubeb> = Mutex::new(Cubeb {
    alive: false,
    devices: [Vec::new(), Vec::new()],
    lines: Vec::new(),
    changed: [None, None],
    lists: 0,
    min_latency: Some(480),
    fail: 0,
    got: Vec::new(),
    got_ret: 0,
    give: [0; 4],
    given: 0,
    give_n: WINDOW,
    give_ret: 0,
});
fn c() -> std::sync::MutexGuard<'static, Cubeb> {
    C.lock().unwrap()
}
fn alive(p: usize) {
    sx::check!(p == CTX && c().alive);
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_init(out: *mut usize, _: *const c_char, _: *const c_char) -> c_int {
    if c().fail & INIT != 0 {
        return -1;
    }
    c().alive = true;
    unsafe { *out = CTX };
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_destroy(p: usize) {
    alive(p);
    let mut c = c();
    // nothing is left that would use it
    sx::check!(c.lists == 0 && c.lines.iter().all(|l| !l.alive));
    c.alive = false;
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_get_backend_id(p: usize) -> *const c_char {
    alive(p);
    c"stand-in".as_ptr()
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_get_min_latency(p: usize, _: *const Params, out: *mut c_uint) -> c_int {
    alive(p);
    match c().min_latency {
        Some(n) => unsafe {
            *out = n;
            0
        },
        None => -1,
    }
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_enumerate_devices(p: usize, kind: c_uint, out: *mut Collection) -> c_int {
    alive(p);
    let mut c = c();
    let v: Vec<Info> = c.devices[kind as usize - 1]
        .iter()
        .map(|d| Info {
            devid: d.id as *const c_void,
            device_id: d.device_id.map_or(std::ptr::null(), CStr::as_ptr),
            friendly_name: d.name.map_or(std::ptr::null(), CStr::as_ptr),
            group_id: std::ptr::null(),
            vendor_name: std::ptr::null(),
            device_type: kind,
            state: d.state,
            preferred: d.preferred,
            format: 0x10,
            default_format: 0x10,
            max_channels: 2,
            default_rate: RATE,
            max_rate: RATE,
            min_rate: RATE,
            latency_lo: 0,
            latency_hi: 0,
        })
        .collect();
    c.lists += 1;
    let v = Box::leak(v.into_boxed_slice());
    unsafe { *out = Collection { device: v.as_mut_ptr(), count: v.len() } };
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_device_collection_destroy(p: usize, _: *mut Collection) -> c_int {
    alive(p);
    c().lists -= 1;
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_register_device_collection_changed(
    p: usize,
    kind: c_uint,
    f: Option<unsafe extern "C" fn(*mut c_void, *mut c_void)>,
    user: usize,
) -> c_int {
    alive(p);
    let mut c = c();
    if f.is_some() && c.fail & [REGISTER_IN, REGISTER_OUT][kind as usize - 1] != 0 {
        return -1;
    }
    c.changed[kind as usize - 1] = f.map(|f| (f, user));
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_set_log_callback(_: c_int, _: usize) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_register_device_changed_callback(n: usize, _: usize) -> c_int {
    line(n, |_| ())
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_log_get_level() -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_init(
    p: usize,
    out: *mut usize,
    _name: *const c_char,
    in_dev: usize,
    in_params: *const Params,
    out_dev: usize,
    out_params: *const Params,
    latency: c_uint,
    data: Data,
    _state: usize,
    user: usize,
) -> c_int {
    alive(p);
    let mut c = c();
    if c.fail & STREAM != 0 {
        return -1;
    }
    let input = !in_params.is_null();
    sx::check!(input == out_params.is_null());
    let q = unsafe { &*if input { in_params } else { out_params } };
    // 16 bits, at the rate WebRTC works at, and as many channels as the callbacks deal with
    sx::check!(q.format == 0 && q.rate == RATE && q.channels == if input { 1 } else { 2 });
    let device = if input { in_dev } else { out_dev };
    c.lines.push(Line { input, device, latency, running: false, alive: true, data, user });
    unsafe { *out = c.lines.len() };
    0
}
fn line(n: usize, f: impl Fn(&mut Line)) -> c_int {
    let mut c = c();
    sx::check!(c.alive && n > 0 && c.lines[n - 1].alive);
    f(&mut c.lines[n - 1]);
    0
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_start(n: usize) -> c_int {
    line(n, |l| l.running = true)
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_stop(n: usize) -> c_int {
    line(n, |l| l.running = false)
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_destroy(n: usize) {
    line(n, |l| l.alive = false);
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_get_latency(n: usize, out: *mut c_uint) -> c_int {
    line(n, |l| unsafe { *out = l.latency * 3 })
}
#[unsafe(no_mangle)]
extern "C" fn cubeb_stream_user_ptr(n: usize) -> usize {
    let c = c();
    sx::check!(n > 0);
    c.lines[n - 1].user
}
#[unsafe(no_mangle)]
extern "C" fn Rust_recordedDataIsAvailable(
    p: *const i16,
    n: usize,
    bytes: usize,
    channels: usize,
    rate: u32,
    _delay: u32,
    _drift: i32,
    _level: u32,
    _key: bool,
    _new_level: *mut u32,
    _time: i64,
) -> i32 {
    let mut c = c();
    // 10 ms at a time
    sx::check!(n == WINDOW && bytes == 2 && channels == 1 && rate == RATE);
    c.got.push(unsafe { std::slice::from_raw_parts(p, n) }.to_vec());
    c.got_ret
}
#[unsafe(no_mangle)]
extern "C" fn Rust_needMorePlayData(
    n: usize,
    bytes: usize,
    channels: usize,
    rate: u32,
    p: *mut i16,
    out: *mut usize,
    _elapsed: *mut i64,
    _ntp: *mut i64,
) -> i32 {
    let mut c = c();
    sx::check!(n == WINDOW && bytes == 2 && channels == 1 && rate == RATE);
    for i in 0..c.give_n {
        let k = c.given + i;
        unsafe { *p.add(i) = sample(&c.give, k) };
    }
    c.given += c.give_n;
    unsafe { *out = c.give_n };
    c.give_ret
}
/// The k-th sample: some of them unknown.
fn sample(some: &[i16; 4], k: usize) -> i16 {
    match k {
        0 => some[0],
        479 => some[1],
        480 => some[2],
        700 => some[3],
        _ => k as i16,
    }
}
fn unknown() -> [i16; 4] {
    std::array::from_fn(|_| sx::u16() as i16)
}
/// Recorded samples from the line, if it is running, numbered from `at`; what the callback returned.
fn record(n: usize, some: &[i16; 4], at: usize, len: usize) -> Option<c_long> {
    let (data, user) = {
        let c = c();
        let l = &c.lines[n];
        if !l.running || !l.alive {
            return None;
        }
        (l.data, l.user)
    };
    let v: Vec<i16> = (at..at + len).map(|k| sample(some, k)).collect();
    Some(unsafe {
        data(n as *mut c_void, user as *mut c_void, v.as_ptr() as *const c_void, std::ptr::null_mut(), len as c_long)
    })
}
fn play(n: usize, out: &mut [[i16; 2]]) -> c_long {
    let (data, user) = {
        let c = c();
        sx::check!(c.lines[n].running && c.lines[n].alive);
        (c.lines[n].data, c.lines[n].user)
    };
    unsafe {
        data(
            n as *mut c_void,
            user as *mut c_void,
            std::ptr::null(),
            out.as_mut_ptr() as *mut c_void,
            out.len() as c_long,
        )
    }
}
/// For the factory: the platform, and how many usable devices there are of each kind.
pub fn plug(works: bool, counts: [usize; 2]) {
    let mut c = c();
    c.fail = if works { 0 } else { INIT };
    c.devices = counts.map(|n| [A, B][..n].to_vec());
}
/// The devices of the streams open: for input or not, and running or not.
pub fn open_streams() -> Vec<(usize, bool, bool)> {
    c().lines.iter().filter(|l| l.alive).map(|l| (l.device, l.input, l.running)).collect()
}
pub fn in_use() -> bool {
    c().alive
}
/// Streams fail to open from now on.
pub fn no_streams() {
    c().fail |= STREAM;
}
const A: Dev = Dev { id: 0x11, device_id: Some(c"ida"), name: Some(c"A"), state: ENABLED, preferred: VOICE | MULTIMEDIA };
const B: Dev = Dev { id: 0x22, device_id: Some(c"idb"), name: Some(c"B"), state: ENABLED, preferred: 0 };
fn adm() -> AudioDeviceModule {
    let a = AudioDeviceModule::new().unwrap();
    sx::idle();
    a
}
/// The devices of a kind have changed.
fn replug(kind: u32, devices: &[Dev]) {
    let f = {
        let mut c = c();
        c.devices[kind as usize - 1] = devices.to_vec();
        c.changed[kind as usize - 1]
    };
    let (f, user) = f.unwrap();
    unsafe { f(CTX as *mut c_void, user as *mut c_void) };
    sx::idle();
}
/// The line that would get or give samples.
fn running(input: bool) -> Vec<usize> {
    let c = c();
    (0..c.lines.len()).filter(|&i| c.lines[i].input == input && c.lines[i].alive && c.lines[i].running).collect()
}

//@ harness bound="3_callbacks_of_0_to_1000_samples,4_unknown_samples"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_record_samples() {
    c().devices = [vec![A], vec![A]];
    let mut a = adm();
    let some = unknown();
    sx::check!(a.init_recording() == 0 && a.start_recording() == 0);
    sx::idle();
    let mut at = 0;
    for _ in 0..3 {
        let len = [0, 1, 100, 479, 480, 481, 1000][sx::pick(0, 6) as usize];
        sx::check!(record(0, &some, at, len) == Some(len as c_long));
        at += len;
        // all that makes up whole windows has been handed over, in order
        let got: Vec<i16> = c().got.concat();
        sx::check!(got.len() == at / WINDOW * WINDOW);
        for (k, x) in got.iter().enumerate() {
            sx::check!(*x == sample(&some, k));
        }
    }
    sx::cover!(at == 1438);
}
//@ harness bound="2_callbacks,WebRTC_fails"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_record_fails() {
    c().devices = [vec![A], vec![A]];
    let mut a = adm();
    a.init_recording();
    a.start_recording();
    sx::idle();
    c().got_ret = -3;
    sx::check!(record(0, &[0; 4], 0, 100) == Some(100));
    sx::check!(record(0, &[0; 4], 100, 480) == Some(-3));
    sx::cover!();
}
//@ harness bound="3_callbacks_of_0_to_1000_samples,4_unknown_samples"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_play_samples() {
    c().devices = [vec![A], vec![A]];
    let mut a = adm();
    let some = unknown();
    c().give = some;
    sx::check!(a.init_playout() == 0 && a.start_playout() == 0);
    sx::idle();
    let mut at = 0;
    for _ in 0..3 {
        let len = [0, 1, 100, 479, 480, 481, 1000][sx::pick(0, 6) as usize];
        let mut out = vec![[-1i16; 2]; len];
        sx::check!(play(0, &mut out) == len as c_long);
        // each sample once, in order, on both channels
        for f in &out {
            let s = sample(&some, at);
            sx::check!(f[0] == s && f[1] == s);
            at += 1;
        }
        // and no more taken from WebRTC than needed
        sx::check!(c().given == at.div_ceil(WINDOW) * WINDOW);
    }
    sx::cover!(at == 1438);
}
//@ harness bound="WebRTC_has_less_than_a_window,nothing,or_fails"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_play_less() {
    c().devices = [vec![A], vec![A]];
    let mut a = adm();
    let some = unknown();
    c().give = some;
    a.init_playout();
    a.start_playout();
    sx::idle();
    let less = sx::pick(0, 1) == 1;
    c().give_n = if less { 100 } else { 480 };
    let mut out = [[-1i16; 2]; 250];
    sx::check!(play(0, &mut out) == 250);
    for (k, f) in out.iter().enumerate() {
        sx::check!(f[0] == sample(&some, k) && f[1] == f[0]);
    }
    let left = c().given - 250;
    sx::check!(left == if less { 50 } else { 230 });
    let mut out = [[-1i16; 2]; 300];
    if sx::pick(0, 1) == 1 {
        // nothing left: what there was is played
        c().give_n = 0;
        sx::check!(play(0, &mut out) == left as c_long);
        for (k, f) in out.iter().take(left).enumerate() {
            sx::check!(f[0] == sample(&some, 250 + k) && f[1] == f[0]);
        }
    } else {
        c().give_ret = -1;
        sx::check!(play(0, &mut out) < 0);
    }
    sx::cover!(less);
}

/// What an application and WebRTC ask for.
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Init,
    Start,
    Stop,
    Warmup,
    Processing(bool),
    Device(usize),
    ById(usize),
    Replug(bool),
}
use Op::*;
struct Asked {
    // whether the application wants what is recorded to be sent (or something to be played)
    on: bool,
    // a stream is there
    init: bool,
    warm: bool,
    device: Option<usize>,
    plugged: bool,
}
const IDS: [&str; 2] = ["ida", "idb"];
fn ask(a: &mut AudioDeviceModule, s: &mut Asked, input: bool, op: Op) {
    let all: &[Dev] = &[A, B];
    match op {
        Init => {
            sx::check!((if input { a.init_recording() } else { a.init_playout() }) == 0);
            s.init = true;
        }
        Start => {
            sx::check!((if input { a.start_recording() } else { a.start_playout() }) == 0);
            s.on = true;
            s.warm = false;
        }
        Stop => {
            sx::check!((if input { a.stop_recording() } else { a.stop_playout() }) == 0);
            s.on = false;
            s.init = false;
            s.warm = false;
        }
        // as the factory does it
        Warmup => {
            a.init_recording();
            sx::check!(a.warmup_recording().is_ok());
            s.init = true;
            s.warm = true;
        }
        Processing(on) => sx::check!(a.set_input_processing_enabled(on).is_ok()),
        Device(i) => {
            let there = if s.plugged { 3 } else { 2 };
            let r = if input { a.set_recording_device(i) } else { a.set_playout_device(i) };
            sx::check!(r.is_ok() == (i < there));
            if i < there {
                s.device = Some(if i == 2 { B.id } else { A.id });
            }
        }
        ById(i) => {
            let r = if input { a.set_recording_device_by_id(IDS[i]) } else { a.set_playout_device_by_id(IDS[i]) };
            sx::check!(r.is_ok() == (i == 0 || s.plugged));
            if r.is_ok() {
                s.device = Some([A.id, B.id][i]);
            }
        }
        Replug(on) => {
            replug(if input { INPUT } else { OUTPUT }, if on { all } else { &all[..1] });
            s.plugged = on;
            // what is gone is no longer chosen
            if !on && s.device == Some(B.id) {
                s.device = None;
            }
        }
    }
    sx::idle();
}
fn streams(input: bool, first: &[Op], ops: &[Op], steps: usize) {
    c().devices = [vec![A, B], vec![A, B]];
    let mut a = adm();
    let mut s = Asked { on: false, init: false, warm: false, device: None, plugged: true };
    let mut said = vec![];
    for i in 0..first.len() + steps {
        let op = if i < first.len() { first[i] } else { ops[sx::pick(0, ops.len() as u64 - 1) as usize] };
        // WebRTC starts what it has initialised, and initialises once
        let init = if input { a.recording_is_initialized() } else { a.playout_is_initialized() };
        let on = if input { a.recording() } else { a.playing() };
        match op {
            Init => sx::assume(!init || (s.warm && !s.on)),
            Start => sx::assume(init && !on),
            Warmup => sx::assume(!init),
            _ => (),
        }
        ask(&mut a, &mut s, input, op);
        said.push(op);
        sx::check!((if input { a.recording() } else { a.playing() }) == s.on);
        sx::check!((if input { a.recording_is_initialized() } else { a.playout_is_initialized() }) == s.init);
        let lines = running(input);
        // one stream runs if there is to be sound, on the device chosen, or the default one
        if s.on || s.warm {
            sx::check!(lines.len() == 1);
            let d = c().lines[lines[0]].device;
            match s.device {
                Some(id) => sx::check!(d == id),
                // a device that went away may be tried still
                None => sx::check!(d == A.id || (!s.plugged && d == B.id)),
            }
        } else {
            sx::check!(lines.is_empty());
        }
        sx::check!(running(!input).is_empty());
        // what is recorded is sent if asked for, and only then
        if input {
            let n = c().lines.len();
            for k in 0..n {
                let before = c().got.len();
                let r = record(k, &[0; 4], 0, WINDOW);
                let sent = c().got.len() - before;
                sx::check!(sent == (r.is_some() && s.on) as usize);
            }
        }
    }
    // it can all be ended, whatever runs
    drop(a);
    sx::check!(!c().alive && c().changed.iter().all(|f| f.is_none()));
    sx::cover!(s.on && s.device == Some(B.id));
    sx::cover!(said.contains(&Replug(false)));
}
const RECORD: [Op; 9] =
    [Init, Start, Stop, Warmup, Processing(true), Device(0), Device(2), ById(1), Replug(false)];
//@ harness bound="5_of_9_operations"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_record_ops() {
    streams(true, &[], &RECORD, 5);
}
//@ harness bound="recording,then_3_of_9_operations"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_record_on() {
    let first: &[Op] = if sx::pick(0, 1) == 1 { &[Init, Start] } else { &[Warmup, Init, Start] };
    streams(true, first, &RECORD, 3);
}
//@ harness bound="5_of_6_operations"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_play_ops() {
    streams(false, &[], &[Init, Start, Stop, Device(2), ById(0), Replug(false)], 5);
}

#[derive(Debug, Clone, Default)]
struct Watch(Arc<Mutex<Vec<(bool, Vec<Option<AudioDevice>>)>>>);
impl AudioDeviceObserver for Watch {
    fn output_changed(&self, d: Vec<Option<AudioDevice>>) {
        self.0.lock().unwrap().push((false, d));
    }
    fn input_changed(&self, d: Vec<Option<AudioDevice>>) {
        self.0.lock().unwrap().push((true, d));
    }
}
fn device(i: usize) -> Dev {
    const NAMES: [&CStr; 3] = [c"Mic", c"Line", c"\xc3\xa9"];
    const IDS: [&CStr; 3] = [c"id0", c"id1", c"id2"];
    const MONITORS: [&CStr; 3] = [c"id0.monitor", c"id1.monitor", c"id2.monitor"];
    let mut d = Dev { id: 0x100 + i, device_id: Some(IDS[i]), name: Some(NAMES[i]), state: ENABLED, preferred: 0 };
    match sx::pick(0, 5) {
        0 => d.name = None,
        1 => d.device_id = None,
        2 => d.device_id = Some(MONITORS[i]),
        3 => d.state = 1,
        4 => d.device_id = Some(c".monitor.x"),
        _ => (),
    }
    d
}
/// The devices an application is offered: the default one, if there is any, then all that can be used.
fn offered(v: &[Dev], input: bool) -> Vec<Option<Dev>> {
    let usable: Vec<Dev> = v.iter().filter(|d| d.name.is_some() && d.state == ENABLED).copied().collect();
    let monitor = |d: &Dev| input && d.device_id.is_some_and(|i| i.to_bytes().ends_with(b".monitor"));
    let default = usable.iter().find(|d| d.preferred & VOICE != 0);
    let rest: Vec<Dev> = usable.iter().filter(|d| !monitor(d)).copied().collect();
    if rest.is_empty() && default.is_none() {
        return vec![];
    }
    std::iter::once(default.copied()).chain(rest.into_iter().map(Some)).collect()
}
//@ harness bound="3_devices,6_sorts,any_default,any_choice_by_number_or_id"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_offered() {
    let n = sx::pick(0, 3) as usize;
    let mut v: Vec<Dev> = (0..n).map(device).collect();
    let default = sx::pick(0, n as u64) as usize;
    if default < n {
        v[default].preferred = VOICE;
    }
    let input = sx::pick(0, 1) == 1;
    c().devices = if input { [v.clone(), vec![]] } else { [vec![], v.clone()] };
    let mut a = adm();
    let want = offered(&v, input);
    let got = if input { a.get_audio_recording_devices() } else { a.get_audio_playout_devices() }.unwrap();
    sx::check!(got.len() == want.len());
    sx::check!((if input { a.recording_devices() } else { a.playout_devices() }) as usize == want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        sx::check!(g.is_some() == w.is_some());
        let (Some(g), Some(w)) = (g, w) else { continue };
        let name = w.name.unwrap().to_str().unwrap();
        sx::check!(g.name == if i == 0 { format!("default ({name})") } else { name.to_string() });
        match w.device_id {
            Some(id) => sx::check!(g.unique_id.as_bytes() == id.to_bytes()),
            None => sx::check!(g.unique_id == format!("{name}-{i}")),
        }
    }
    // any of them can be chosen
    let i = sx::pick(0, 4) as usize;
    let r = if input { a.set_recording_device(i) } else { a.set_playout_device(i) };
    sx::check!(r.is_ok() == (i < want.len() || want.is_empty()));
    if input {
        a.init_recording();
    } else {
        a.init_playout();
    }
    sx::idle();
    // and without a choice that can be had, it is the default one
    let chosen = want.get(i).copied().flatten().or(want.first().copied().flatten());
    let c = c();
    match chosen {
        Some(d) => sx::check!(c.lines.len() == 1 && c.lines[0].device == d.id && c.lines[0].input == input),
        None => sx::check!(c.lines.is_empty()),
    }
    sx::cover!(want.len() == 4);
    sx::cover!(want.len() > 1 && want[0].is_none());
    sx::cover!(input && i > 0 && chosen.is_some());
}
//@ harness bound="3_changes_among_4_sets_of_devices_and_the_observer"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_changes() {
    let sets: [&[Dev]; 4] = [&[], &[A], &[A, B], &[B]];
    let mut now = [sx::pick(0, 3) as usize, 2];
    c().devices = [sets[now[0]].to_vec(), sets[2].to_vec()];
    let mut a = adm();
    let w = Watch::default();
    let mut watching = sx::pick(0, 1) == 1;
    if watching {
        a.register_audio_device_callback(Box::new(w.clone())).unwrap();
    }
    sx::idle();
    for _ in 0..3 {
        w.0.lock().unwrap().clear();
        let k = sx::pick(0, 8) as usize;
        if k == 8 {
            a.register_audio_device_callback(Box::new(w.clone())).unwrap();
            sx::idle();
            watching = true;
            continue;
        }
        let (kind, set) = (k / 4, k % 4);
        replug(kind as u32 + 1, sets[set]);
        // told once of what changed, and of nothing else
        let told = w.0.lock().unwrap().clone();
        let names = if kind == 0 { a.get_audio_recording_devices() } else { a.get_audio_playout_devices() }.unwrap();
        if watching && now[kind] != set {
            sx::check!(told == [(kind == 0, names.clone())]);
        } else {
            sx::check!(told.is_empty());
        }
        sx::check!(names.len() == offered(sets[set], kind == 0).len());
        now[kind] = set;
    }
    sx::cover!(watching && now == [0, 3]);
}
//@ harness bound="5_failures_at_the_start,streams_that_cannot_be_had,then_can"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_failures() {
    c().devices = [vec![A], vec![A]];
    let f = [0, INIT, REGISTER_IN, REGISTER_OUT, STREAM][sx::pick(0, 4) as usize];
    let min = [Some(480), Some(4800), Some(1), None][sx::pick(0, 3) as usize];
    c().fail = f;
    c().min_latency = min;
    let a = AudioDeviceModule::new();
    sx::check!(a.is_ok() == (f == 0 || f == STREAM));
    let Ok(mut a) = a else {
        sx::idle();
        sx::check!(!c().alive);
        return;
    };
    sx::idle();
    sx::check!(a.backend_name() == "stand-in");
    a.init_recording();
    a.start_recording();
    a.init_playout();
    a.start_playout();
    sx::idle();
    let mut ms = 7u16;
    let there = f == 0;
    sx::check!(running(true).len() == there as usize && running(false).len() == there as usize);
    // the delay of the output stream, 3 times its latency here
    sx::check!(a.playout_delay(Borrowed::from_ptr(&mut ms)) == if there { 0 } else { -1 });
    let latency = min.unwrap_or(480).max(480);
    sx::check!(ms == if there { (latency * 3 / 48) as u16 } else { 7 });
    // once they work again
    c().fail = 0;
    a.stop_recording();
    a.init_recording();
    a.start_recording();
    a.stop_playout();
    a.init_playout();
    a.start_playout();
    sx::idle();
    sx::check!(running(true).len() == 1 && running(false).len() == 1);
    let line = running(false)[0];
    let c1 = c().lines[line].latency;
    sx::check!(c1 == latency);
    drop(a);
    sx::check!(!c().alive);
    sx::cover!(f == STREAM);
    sx::cover!(min == Some(4800));
}
//@ harness bound="text_of_up_to_4_characters_of_1_to_4_bytes_or_NUL,room_for_1_to_8"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_names_fit() {
    // as much of it as fits, in whole characters, and a NUL
    let n = sx::pick(0, 4);
    let mut src = String::new();
    let mut nul = None;
    for _ in 0..n {
        match sx::pick(0, 4) {
            0 => src.push('a'),
            1 => src.push('\u{e9}'),
            2 => src.push('\u{4f60}'),
            3 => src.push('\u{1f600}'),
            _ => {
                nul = nul.or(Some(src.len()));
                src.push('\0');
            }
        }
    }
    let size = sx::pick(1, 8) as usize;
    let mut out = [0xaau8; 10];
    let r = copy_and_truncate_string(&src, Borrowed::from_ptr(out.as_mut_ptr()), size);
    let mut fits = src.len().min(size - 1);
    while !src.is_char_boundary(fits) {
        fits -= 1;
    }
    if nul.is_some_and(|i| i < fits) {
        sx::check!(r.is_err() && out == [0xaa; 10]);
    } else {
        sx::check!(r.is_ok());
        sx::check!(out[..fits] == src.as_bytes()[..fits] && out[fits] == 0);
        sx::check!(out[fits + 1..].iter().all(|b| *b == 0xaa));
    }
    sx::check!(copy_and_truncate_string("a", Borrowed::null(), 5).is_err());
    sx::cover!(fits < src.len() && fits + 1 < size);
}
