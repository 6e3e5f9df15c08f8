//@ property=O01
//@ with=sdp,stats
// What a peer connection is told about descriptions, statistics and codecs.
use ringrtc::common::CallId;
use ringrtc::webrtc;
use ringrtc::webrtc::media::*;
use ringrtc::webrtc::peer_connection::*;
use ringrtc::webrtc::ptr::{Owned, OwnedRc, Unique};
use ringrtc::webrtc::sdp_observer::*;
use ringrtc::webrtc::stats_observer::*;
use std::cell::RefCell;
use std::sync::Arc;
use std::time::Duration;

const PC: usize = 0x60000;
const DESC: usize = 0x60010;

#[repr(C)]
#[derive(Clone, Copy)]
struct RawEncoder {
    sizes: [i32; 3],
    rates: [i32; 3],
    bandwidth: i32,
    complexity: i32,
    adaptation: i32,
    on: [bool; 3],
    dred: i32,
    loss: i32,
    weights: *const u8,
    weights_len: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawDecoder {
    weights: *const u8,
    weights_len: i32,
    complexity: i32,
}
#[derive(PartialEq)]
enum Call {
    Offer(usize, usize),
    Answer(usize, usize),
    Local(usize, usize, usize),
    Remote(usize, usize, usize),
    Stats(usize, usize),
    Encoders(usize, Vec<i32>, [bool; 3], Option<Vec<u8>>),
    Decoders(usize, i32, Option<Vec<u8>>),
}
thread_local! {
    static C: RefCell<Vec<Call>> = RefCell::new(vec![]);
}
fn log(c: Call) {
    C.with(|s| s.borrow_mut().push(c));
}
fn weights(p: *const u8, n: i32) -> Option<Vec<u8>> {
    if p.is_null() {
        sx::check!(n == 0);
        return None;
    }
    Some(if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec() })
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createOffer(p: usize, o: usize) {
    log(Call::Offer(p, o));
}
#[unsafe(no_mangle)]
extern "C" fn Rust_createAnswer(p: usize, o: usize) {
    log(Call::Answer(p, o));
}
#[unsafe(no_mangle)]
extern "C" fn Rust_setLocalDescription(p: usize, o: usize, d: usize) {
    log(Call::Local(p, o, d));
}
#[unsafe(no_mangle)]
extern "C" fn Rust_setRemoteDescription(p: usize, o: usize, d: usize) {
    log(Call::Remote(p, o, d));
}
#[unsafe(no_mangle)]
extern "C" fn Rust_getStats(p: usize, o: usize) {
    log(Call::Stats(p, o));
}
#[unsafe(no_mangle)]
extern "C" fn Rust_configureAudioEncoders(p: usize, c: *const RawEncoder) {
    let c = unsafe { *c };
    let mut n = [c.sizes, c.rates].concat();
    n.extend([c.bandwidth, c.complexity, c.adaptation, c.dred, c.loss]);
    log(Call::Encoders(p, n, c.on, weights(c.weights, c.weights_len)));
}
#[unsafe(no_mangle)]
extern "C" fn Rust_configureAudioDecoders(p: usize, c: *const RawDecoder) {
    let c = unsafe { *c };
    log(Call::Decoders(p, c.complexity, weights(c.weights, c.weights_len)));
}
fn pc() -> PeerConnection {
    let p = unsafe { OwnedRc::from_ptr(crate::rc::new(PC as *const _)) };
    PeerConnection::new(webrtc::Arc::from_owned(p), None, None)
}
fn only(c: Call) {
    let l = C.with(|s| std::mem::take(&mut *s.borrow_mut()));
    sx::check!(l == [c]);
}
fn description() -> SessionDescription {
    let d = Unique::from(unsafe { Owned::from_ptr(DESC as *const RffiSessionDescription) });
    SessionDescription::new(d, None)
}
//@ harness bound="5_operations"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_descriptions() {
    let p = pc();
    match sx::conc(sx::pick(0, 4)) {
        n @ 0..2 => {
            let o = create_csd_observer(None);
            let at = o.rffi().as_borrowed().as_ptr() as usize;
            if n == 0 {
                p.create_offer(&o);
                only(Call::Offer(PC, at));
            } else {
                p.create_answer(&o);
                only(Call::Answer(PC, at));
            }
            sx::check!(crate::rc::count(at as *const u8) == 1);
        }
        n @ 2..4 => {
            let o = create_ssd_observer();
            let at = o.rffi().as_borrowed().as_ptr() as usize;
            if n == 2 {
                p.set_local_description(&o, description());
                only(Call::Local(PC, at, DESC));
            } else {
                p.set_remote_description(&o, description());
                only(Call::Remote(PC, at, DESC));
            }
            // it is WebRTC's now
            sx::check!(crate::hx_sdp::deleted().is_empty());
            sx::check!(crate::rc::count(at as *const u8) == 1);
        }
        _ => {
            let o = create_stats_observer(CallId::new(1), Duration::ZERO);
            let at = o.rffi().as_borrowed().as_ptr() as usize;
            sx::check!(p.get_stats(&o).is_ok());
            only(Call::Stats(PC, at));
        }
    }
    drop(p);
    sx::check!(crate::rc::count(PC as *const u8) == 0);
    sx::cover!();
}
//@ harness bound="any_values_weights=0-2_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_o_codecs() {
    let p = pc();
    let n = sx::conc(sx::pick(0, 3)) as usize;
    let w = (n > 0).then(|| Arc::new(sx::vec(n - 1)));
    let bytes = w.as_ref().map(|w| w.to_vec());
    if sx::concb(sx::bool()) {
        let v = [(); 7].map(|_| sx::u32() as i32);
        let b = [(); 3].map(|_| sx::u8());
        let on = [(); 3].map(|_| sx::bool());
        use AudioBandwidth::*;
        let (bandwidth, raw) = [
            (Auto, -1000),
            (Full, 1105),
            (SuperWide, 1104),
            (Wide, 1103),
            (Medium, 1102),
            (Narrow, 1101),
        ][sx::conc(sx::pick(0, 5)) as usize];
        p.configure_audio_encoders(&AudioEncoderConfig {
            initial_packet_size_ms: v[0],
            min_packet_size_ms: v[1],
            max_packet_size_ms: v[2],
            initial_bitrate_bps: v[3],
            min_bitrate_bps: v[4],
            max_bitrate_bps: v[5],
            bandwidth,
            complexity: b[0],
            adaptation: v[6],
            enable_cbr: on[0],
            enable_dtx: on[1],
            enable_fec: on[2],
            dred_duration: b[1],
            min_packet_loss_percent: b[2],
            dnn_weights: w,
        });
        let mut want = v[..6].to_vec();
        want.extend([raw, b[0] as i32, v[6], b[1] as i32, b[2] as i32]);
        only(Call::Encoders(PC, want, on, bytes));
    } else {
        let complexity = sx::concb(sx::bool()).then(sx::u8);
        p.configure_audio_decoders(&AudioDecoderConfig { dnn_weights: w, complexity });
        // (WebRTC's default is -1)
        only(Call::Decoders(PC, complexity.map_or(-1, |c| c as i32), bytes));
    }
    sx::cover!();
}
