//@ property=D01
// Audio settings and video frames reach WebRTC as they were set.
use ringrtc::common::SemanticVersion;
use ringrtc::core::assets::*;
use ringrtc::protobuf::assets::AssetMetadata;
use ringrtc::webrtc::media::*;
use sha2::{Digest, Sha512};
use std::cell::RefCell;
use std::ffi::c_void;
use std::sync::Arc;

const BW: [(AudioBandwidth, i32); 6] = [
    (AudioBandwidth::Auto, -1000),
    (AudioBandwidth::Full, 1105),
    (AudioBandwidth::SuperWide, 1104),
    (AudioBandwidth::Wide, 1103),
    (AudioBandwidth::Medium, 1102),
    (AudioBandwidth::Narrow, 1101),
];

/// As in webrtc::AudioEncoder::Config
#[repr(C)]
struct RawEnc {
    n: [i32; 9],
    cbr: u8,
    dtx: u8,
    fec: u8,
    dred: i32,
    loss: i32,
    data: *const u8,
    len: i32,
}
#[repr(C)]
struct RawDec {
    data: *const u8,
    len: i32,
    complexity: i32,
}

fn any_encoder() -> AudioEncoderConfig {
    AudioEncoderConfig {
        initial_packet_size_ms: sx::u32() as i32,
        min_packet_size_ms: sx::u32() as i32,
        max_packet_size_ms: sx::u32() as i32,
        initial_bitrate_bps: sx::u32() as i32,
        min_bitrate_bps: sx::u32() as i32,
        max_bitrate_bps: sx::u32() as i32,
        bandwidth: AudioBandwidth::Auto,
        complexity: sx::u8(),
        adaptation: sx::u32() as i32,
        enable_cbr: sx::bool(),
        enable_dtx: sx::bool(),
        enable_fec: sx::bool(),
        dred_duration: sx::u8(),
        min_packet_loss_percent: sx::u8(),
        dnn_weights: None,
    }
}
fn weights() -> Option<Arc<Vec<u8>>> {
    match sx::pick(0, 3) {
        0 => None,
        n => Some(Arc::new(sx::vec(n as usize))),
    }
}
fn check_weights(w: &Option<Arc<Vec<u8>>>, data: *const u8, len: i32) {
    match w {
        None => sx::check!(data.is_null() && len == 0),
        Some(w) => {
            sx::check!(len as usize == w.len());
            sx::check!(unsafe { std::slice::from_raw_parts(data, w.len()) } == &w[..]);
        }
    }
}
fn check_encoder(c: &AudioEncoderConfig, bandwidth: i32) {
    sx::check!(size_of::<RffiAudioEncoderConfig>() == size_of::<RawEnc>());
    let r = c.rffi();
    let r: RawEnc = unsafe { std::mem::transmute_copy(&r) };
    sx::check!(r.n[0] == c.initial_packet_size_ms);
    sx::check!(r.n[1] == c.min_packet_size_ms);
    sx::check!(r.n[2] == c.max_packet_size_ms);
    sx::check!(r.n[3] == c.initial_bitrate_bps);
    sx::check!(r.n[4] == c.min_bitrate_bps);
    sx::check!(r.n[5] == c.max_bitrate_bps);
    sx::check!(r.n[6] == bandwidth);
    sx::check!(r.n[7] == c.complexity as i32);
    sx::check!(r.n[8] == c.adaptation);
    sx::check!(r.cbr == c.enable_cbr as u8);
    sx::check!(r.dtx == c.enable_dtx as u8);
    sx::check!(r.fec == c.enable_fec as u8);
    sx::check!(r.dred == c.dred_duration as i32);
    sx::check!(r.loss == c.min_packet_loss_percent as i32);
    check_weights(&c.dnn_weights, r.data, r.len);
}
fn check_decoder(c: &AudioDecoderConfig) {
    sx::check!(size_of::<RffiAudioDecoderConfig>() == size_of::<RawDec>());
    let r = c.rffi();
    let r: RawDec = unsafe { std::mem::transmute_copy(&r) };
    sx::check!(r.complexity == c.complexity.map_or(-1, |c| c as i32));
    check_weights(&c.dnn_weights, r.data, r.len);
}

//@ harness bound="any_settings,6_bandwidths,weights_up_to_3_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_d_config() {
    let mut c = any_encoder();
    let (b, v) = BW[sx::pick(0, 5) as usize];
    c.bandwidth = b;
    c.dnn_weights = weights();
    check_encoder(&c, v);
    let complexity = if sx::concb(sx::bool()) { Some(sx::u8()) } else { None };
    let d = AudioDecoderConfig {
        dnn_weights: c.dnn_weights.clone(),
        complexity,
    };
    check_decoder(&d);
    sx::cover!(c.dnn_weights.is_none());
    sx::cover!(c.dnn_weights.is_some());
}

//@ harness bound="any_settings,0_to_2_registered_assets_of_2_unknown_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_d_dred() {
    let n = sx::pick(0, 3) as usize;
    let group = if n == 3 { "other" } else { "opus-dred" };
    let count = if n == 3 { 1 } else { n };
    let contents: Vec<Vec<u8>> = (0..count).map(|_| sx::vec(2)).collect();
    if count == 2 {
        sx::assume(contents[0] != contents[1]);
    }
    let man = (0..count)
        .map(|k| AssetManifestEntry {
            metadata: AssetMetadata {
                asset_group: group.to_string(),
                version: ["1.0.0", "1.1.0"][k].to_string(),
                size_bytes: 2,
                sha512_hash: Sha512::digest(&contents[k]).to_vec(),
            },
            disabled: false,
        })
        .collect();
    let mut m = AssetManager::new(man);
    for c in &contents {
        sx::check!(
            m.add_asset_for_feature(group, AssetHandle::Content(c.clone())).is_ok()
        );
    }
    let before = any_encoder();
    let mut e = before.clone();
    let mut d = AudioDecoderConfig {
        dnn_weights: None,
        complexity: Some(sx::u8()),
    };
    let complexity = d.complexity;
    configure_dred_from_assets(&m.get_registry(), &mut e, &mut d);
    let asked = sx::concb(before.dred_duration != 0);
    let have = n == 1 || n == 2;
    if asked && have {
        // one and the same registered asset for both, and no FEC with it
        sx::check!(e.dred_duration == before.dred_duration);
        sx::check!(!e.enable_fec);
        sx::check!(e.dnn_weights == d.dnn_weights);
        let w = e.dnn_weights.as_ref().map(|w| w.to_vec());
        sx::check!(w.is_some_and(|w| contents.contains(&w)));
        sx::cover!(n == 2);
    } else {
        sx::check!(e.dred_duration == 0);
        sx::check!(e.enable_fec == before.enable_fec);
        sx::check!(e.dnn_weights.is_none() && d.dnn_weights.is_none());
        sx::cover!(asked && n == 3);
        sx::cover!(!asked);
    }
    sx::check!(d.complexity == complexity);
    // nothing else is touched
    check_encoder(&e, -1000);
    check_decoder(&d);
    sx::check!(e.complexity == before.complexity && e.enable_cbr == before.enable_cbr);
    sx::check!(e.enable_dtx == before.enable_dtx && e.max_bitrate_bps == before.max_bitrate_bps);
    sx::check!(e.initial_bitrate_bps == before.initial_bitrate_bps);
    sx::check!(e.min_bitrate_bps == before.min_bitrate_bps);
    let _ = SemanticVersion::new(0, 0, 0);
}

/// What WebRTC would hold: the buffers given out, with their references.
#[derive(Default)]
struct Buffers {
    made: Vec<(u32, u32, u8, Vec<u8>)>,
    rotated: Vec<(usize, u32)>,
    scaled: Vec<(usize, i32, i32)>,
    refuse: bool,
    pushed: Vec<usize>,
}
thread_local! {
    static B: RefCell<Buffers> = RefCell::new(Buffers::default());
}
fn handle(k: usize) -> *const c_void {
    (0x10000 + k * 16) as *const c_void
}
fn index(p: *const c_void) -> usize {
    (p as usize - 0x10000) / 16
}
fn refs(k: usize) -> i32 {
    rc::count(handle(k))
}
fn make(w: u32, h: u32, format: u8, data: Vec<u8>) -> *const c_void {
    B.with(|b| {
        let mut b = b.borrow_mut();
        if b.refuse {
            return std::ptr::null();
        }
        b.made.push((w, h, format, data));
        rc::new(handle(b.made.len() - 1))
    })
}
fn raw(p: *const u8, n: usize) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(p, n) }.to_vec()
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_copyVideoFrameBufferFromI420(w: u32, h: u32, p: *const u8) -> *const c_void {
    make(w, h, 0, raw(p, (w * h * 3 / 2) as usize))
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_copyVideoFrameBufferFromNv12(w: u32, h: u32, p: *const u8) -> *const c_void {
    make(w, h, 1, raw(p, (w * h * 3 / 2) as usize))
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_copyVideoFrameBufferFromRgba(w: u32, h: u32, p: *const u8) -> *const c_void {
    make(w, h, 2, raw(p, (w * h * 4) as usize))
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_copyAndRotateVideoFrameBuffer(p: *const c_void, r: u32) -> *const c_void {
    let (w, h, f, d) = B.with(|b| b.borrow().made[index(p)].clone());
    let n = if r == 90 || r == 270 { make(h, w, f, d) } else { make(w, h, f, d) };
    B.with(|b| b.borrow_mut().rotated.push((index(p), r)));
    n
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_scaleVideoFrameBuffer(p: *const c_void, w: i32, h: i32) -> *const c_void {
    let (_, _, f, d) = B.with(|b| b.borrow().made[index(p)].clone());
    B.with(|b| b.borrow_mut().scaled.push((index(p), w, h)));
    make(w as u32, h as u32, f, d)
}
thread_local! {
    static KEPT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_getVideoFrameBufferAsI420(p: *const c_void) -> *const u8 {
    let (_, _, f, d) = B.with(|b| b.borrow().made[index(p)].clone());
    if f != 0 {
        return std::ptr::null();
    }
    KEPT.with(|k| {
        *k.borrow_mut() = d;
        k.borrow().as_ptr()
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_pushVideoFrame(_: *const c_void, p: *const c_void) {
    B.with(|b| b.borrow_mut().pushed.push(index(p)));
}

/// The metadata of a frame that WebRTC hands over.
#[repr(C)]
struct RawMeta {
    width: u32,
    height: u32,
    rotation: VideoRotation,
}
const ROT: [(VideoRotation, u32); 4] = [
    (VideoRotation::None, 0),
    (VideoRotation::Clockwise90, 90),
    (VideoRotation::Clockwise180, 180),
    (VideoRotation::Clockwise270, 270),
];
fn meta(width: u32, height: u32, rotation: VideoRotation) -> VideoFrameMetadata {
    let m = RawMeta {
        width,
        height,
        rotation,
    };
    sx::check!(size_of::<VideoFrameMetadata>() == size_of::<RawMeta>());
    unsafe { std::mem::transmute_copy(&m) }
}

//@ harness bound="any_size,4_rotations"
#[unsafe(no_mangle)]
pub extern "C" fn hx_d_meta() {
    let (w, h) = (sx::u32(), sx::u32());
    let (r, deg) = ROT[sx::pick(0, 3) as usize];
    sx::check!(r as u32 == deg);
    let m = meta(w, h, r).apply_rotation();
    let m: RawMeta = unsafe { std::mem::transmute_copy(&m) };
    sx::check!(m.rotation == VideoRotation::None);
    if deg == 90 || deg == 270 {
        sx::check!(m.width == h && m.height == w);
        sx::cover!();
    } else {
        sx::check!(m.width == w && m.height == h);
        sx::cover!();
    }
    let v = sx::u32() as i32;
    let want = match v {
        0 => Some(VideoPixelFormat::I420),
        1 => Some(VideoPixelFormat::Nv12),
        2 => Some(VideoPixelFormat::Rgba),
        _ => None,
    };
    sx::check!(VideoPixelFormat::from_i32(v) == want);
}

//@ harness bound="frames_of_2x2_or_4x2_symbolic_bytes,3_formats,4_rotations,WebRTC_refusing_or_not"
#[unsafe(no_mangle)]
pub extern "C" fn hx_d_frame() {
    let (w, h) = [(2u32, 2u32), (4, 2)][sx::pick(0, 1) as usize];
    let f = sx::pick(0, 2) as i32;
    let format = VideoPixelFormat::from_i32(f).unwrap();
    let n = (if f == 2 { w * h * 4 } else { w * h * 3 / 2 }) as usize;
    let mut data = sx::vec(n);
    let want = data.clone();
    let frame = VideoFrame::copy_from_slice(w, h, format, &data);
    data.iter_mut().for_each(|b| *b ^= 1);
    sx::check!(frame.width() == w && frame.height() == h);
    B.with(|b| {
        let b = b.borrow();
        sx::check!(b.made.len() == 1);
        sx::check!(b.made[0] == (w, h, f as u8, want.clone()));
    });
    match frame.as_i420() {
        Some(d) => sx::check!(f == 0 && *d == want[..]),
        None => sx::check!(f != 0),
    }
    // the same buffer with a rotation, as WebRTC's decoder hands it over
    let (r, deg) = ROT[sx::pick(0, 3) as usize];
    drop(frame);
    sx::check!(refs(0) == 0);
    let null = sx::concb(sx::bool());
    let p = if null { std::ptr::null() } else { make(w, h, f as u8, want.clone()) };
    let buffer = ringrtc::webrtc::Arc::from_owned(unsafe {
        ringrtc::webrtc::ptr::OwnedRc::from_ptr(p as *const RffiVideoFrameBuffer)
    });
    let refuse = sx::concb(sx::bool());
    B.with(|b| b.borrow_mut().refuse = refuse);
    let turned = VideoFrame::from_buffer(meta(w, h, r), buffer).apply_rotation();
    B.with(|b| b.borrow_mut().refuse = false);
    let done = !null && deg != 0 && !refuse;
    if done && (deg == 90 || deg == 270) {
        sx::check!(turned.width() == h && turned.height() == w);
    } else {
        sx::check!(turned.width() == w && turned.height() == h);
    }
    B.with(|b| {
        let b = b.borrow();
        if deg != 0 && !null {
            sx::check!(b.rotated.len() == 1 && b.rotated[0] == (1, deg));
        } else {
            sx::check!(b.rotated.is_empty());
        }
        if done {
            // the old one is given back, the new one held
            sx::check!(refs(1) == 0 && refs(2) == 1);
            sx::check!(b.made[2].0 == turned.width() && b.made[2].1 == turned.height());
        } else if !null {
            sx::check!(refs(1) == 1);
        }
    });
    // turned once is enough
    let again = turned.apply_rotation();
    B.with(|b| {
        let asked = if deg == 0 || null { 0 } else if done { 1 } else { 2 };
        sx::check!(b.borrow().rotated.len() == asked);
    });
    drop(again);
    let n = B.with(|b| b.borrow().made.len());
    sx::check!((0..n).all(|k| refs(k) == 0));
    sx::cover!(done);
    sx::cover!(!done && deg != 0);
}

//@ harness bound="any_target_size_up_to_2^31-1"
#[unsafe(no_mangle)]
pub extern "C" fn hx_d_scale() {
    let data = sx::vec(6);
    let frame = VideoFrame::copy_from_slice(2, 2, VideoPixelFormat::I420, &data);
    let (w, h) = (sx::u32() >> 1, sx::u32() >> 1);
    let s = frame.scale(w, h);
    sx::check!(s.width() == w && s.height() == h);
    sx::check!(frame.width() == 2 && frame.height() == 2);
    B.with(|b| {
        let b = b.borrow();
        sx::check!(b.scaled.len() == 1 && b.scaled[0] == (0, w as i32, h as i32));
        sx::check!(b.made.len() == 2 && refs(0) == 1 && refs(1) == 1);
    });
    drop(frame);
    sx::check!(refs(0) == 0 && refs(1) == 1);
    drop(s);
    sx::check!(refs(0) == 0 && refs(1) == 0);
    sx::cover!();
}

/// WebRTC's conversion writes the whole picture.
#[unsafe(no_mangle)]
pub extern "C" fn Rust_convertVideoFrameBufferToRgba(p: *const c_void, to: *mut u8) -> bool {
    let (w, h, f, d) = B.with(|b| b.borrow().made[index(p)].clone());
    if f != 2 {
        return false;
    }
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), to, (w * h * 4) as usize) };
    true
}
/// WebRTC is given no memory but the caller's: what is too short for the picture is refused.
//@ harness bound="frames_of_2x2_symbolic_bytes,3_formats,buffers_of_0_1_2_bytes_less_or_1_more_or_none"
#[unsafe(no_mangle)]
pub extern "C" fn hx_d_short() {
    let (w, h) = (2u32, 2u32);
    let f = sx::pick(0, 2) as i32;
    let format = VideoPixelFormat::from_i32(f).unwrap();
    let need = (if f == 2 { w * h * 4 } else { w * h * 3 / 2 }) as usize;
    let n = [0, need - 2, need - 1, need, need + 1][sx::pick(0, 4) as usize];
    let data = sx::vec(n);
    if n < need {
        // refused
        sx::panics_ok(true);
        sx::cover!();
        std::mem::forget(VideoFrame::copy_from_slice(w, h, format, &data));
        B.with(|b| sx::check!(b.borrow().made.is_empty()));
        return;
    }
    let frame = VideoFrame::copy_from_slice(w, h, format, &data);
    let len = [0usize, 15, 16, 17][sx::pick(0, 3) as usize];
    let mut to = vec![7u8; len];
    if frame.to_rgba(&mut to) {
        sx::check!(f == 2 && len >= 16);
        sx::check!(to[..16] == data[..16] && to[16..].iter().all(|b| *b == 7));
        sx::cover!(len == 17);
    } else {
        sx::check!(f != 2 || len < 16);
        sx::check!(to.iter().all(|b| *b == 7));
        sx::cover!(f == 2);
    }
}
