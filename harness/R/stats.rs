//@ property=J01
// What the statistics say about the time between two reports.
use ringrtc::common::CallId;
use ringrtc::webrtc;
use ringrtc::webrtc::peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol};
use ringrtc::webrtc::ptr::{Borrowed, OwnedRc};
use ringrtc::webrtc::stats_observer::*;
use std::ffi::{CString, c_char, c_void};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const OBS: usize = 0x50000;
static SEEN: Mutex<(usize, usize, bool)> = Mutex::new((0, 0, false));
#[unsafe(no_mangle)]
extern "C" fn Rust_createStatsObserver(
    o: Borrowed<c_void>,
    cbs: Borrowed<c_void>,
) -> OwnedRc<RffiStatsObserver> {
    *SEEN.lock().unwrap() = (o.as_ptr() as usize, cbs.as_ptr() as usize, false);
    unsafe { OwnedRc::from_ptr(crate::rc::new(OBS as *const RffiStatsObserver)) }
}
#[unsafe(no_mangle)]
extern "C" fn Rust_setCollectRawStatsReport(o: *const c_void, on: bool) {
    sx::check!(o as usize == OBS);
    SEEN.lock().unwrap().2 = on;
}

/// What the consumer was given: the kind, the stream, and the numbers in the snapshot's order.
#[derive(Debug, Clone, PartialEq)]
enum Snap {
    Begin,
    End,
    Audio(u32, Vec<f64>),
    AudioRecv(u32, Vec<f64>),
    Video(u32, Vec<f64>, String, Option<String>),
    VideoRecv(u32, Vec<f64>, Option<String>),
    Connection(u64, i64, [f64; 2], [u64; 4], Option<NetworkRoute>),
    System,
}
#[derive(Debug, Clone, Default)]
struct Seen(Arc<Mutex<Vec<Snap>>>);
impl StatsSnapshotConsumer for Seen {
    fn on_stats_snapshot_ready(&self, s: &StatsSnapshot) {
        let f = |v: f32| v as f64;
        let s = match s {
            StatsSnapshot::Begin => Snap::Begin,
            StatsSnapshot::End => Snap::End,
            StatsSnapshot::System(_) => Snap::System,
            StatsSnapshot::AudioSender(s) => Snap::Audio(
                s.ssrc,
                vec![
                    f(s.packets_per_second),
                    f(s.average_packet_size),
                    f(s.bitrate),
                    f(s.remote_packets_lost_pct),
                    s.remote_jitter,
                    s.remote_rtt,
                    s.audio_energy,
                ],
            ),
            StatsSnapshot::AudioReceiver(s) => Snap::AudioRecv(
                s.ssrc,
                vec![
                    f(s.packets_per_second),
                    f(s.packets_lost_pct),
                    f(s.bitrate),
                    s.jitter,
                    s.jitter_buffer_delay,
                    s.jitter_buffer_target_delay,
                    s.jitter_buffer_flushes as f64,
                    s.audio_energy,
                    f(s.concealed_samples_pct),
                    s.fec_packets_received as f64,
                    s.relative_arrival_delay_per_packet,
                ],
            ),
            StatsSnapshot::VideoSender(s) => Snap::Video(
                s.ssrc,
                vec![
                    f(s.packets_per_second),
                    f(s.average_packet_size),
                    f(s.bitrate),
                    f(s.framerate),
                    s.key_frames_encoded as f64,
                    s.encode_time_per_frame,
                    s.width as f64,
                    s.height as f64,
                    s.retransmitted_packets_sent as f64,
                    f(s.retransmitted_bitrate),
                    s.send_delay_per_packet,
                    s.nack_count as f64,
                    s.pli_count as f64,
                    s.quality_limitation_resolution_changes as f64,
                    f(s.remote_packets_lost_pct),
                    s.remote_jitter,
                    s.remote_round_trip_time,
                    s.codec as u32 as f64,
                ],
                s.quality_limitation_reason.to_string(),
                s.encoder_implementation.clone(),
            ),
            StatsSnapshot::VideoReceiver(s) => Snap::VideoRecv(
                s.ssrc,
                vec![
                    f(s.packets_per_second),
                    f(s.packets_lost_pct),
                    f(s.bitrate),
                    f(s.framerate),
                    s.key_frames_decoded as f64,
                    s.decode_time_per_frame,
                    s.width as f64,
                    s.height as f64,
                    s.jitter,
                    s.freeze_count as f64,
                    s.codec as u32 as f64,
                ],
                s.decoder_implementation.clone(),
            ),
            StatsSnapshot::Connection(s) => Snap::Connection(
                s.call_id.as_u64(),
                s.timestamp_us,
                [s.current_round_trip_time, s.available_outgoing_bitrate],
                [s.requests_sent, s.responses_received, s.requests_received, s.responses_sent],
                s.network_route,
            ),
        };
        self.0.lock().unwrap().push(s);
    }
}
struct World {
    o: Box<StatsObserver>,
    seen: Seen,
    on: extern "C" fn(*const c_void, *const MediaStatistics, *const c_char),
}
#[derive(Default)]
struct Report {
    us: i64,
    audio: Vec<AudioSenderStatistics>,
    audio_recv: Vec<AudioReceiverStatistics>,
    video: Vec<VideoSenderStatistics>,
    video_recv: Vec<VideoReceiverStatistics>,
    nominated: ConnectionStatistics,
}
impl World {
    fn new(offset_s: u64) -> World {
        sx::clock(1_000_000_000_000);
        let mut o = create_stats_observer(CallId::new(77), Duration::from_secs(offset_s));
        let seen = Seen::default();
        o.set_stats_snapshot_consumer(Box::new(seen.clone()));
        let (me, cbs, _) = *SEEN.lock().unwrap();
        // WebRTC calls back the observer itself
        sx::check!(me == &*o as *const StatsObserver as usize);
        let on = unsafe { *(cbs as *const _) };
        World { o, seen, on }
    }
    /// Hands a report over as WebRTC does; what the consumer was given.
    fn report(&self, r: &Report, json: &str) -> Vec<Snap> {
        fn p<T>(v: &[T]) -> *const T {
            if v.is_empty() { std::ptr::null() } else { v.as_ptr() }
        }
        self.seen.0.lock().unwrap().clear();
        let m = MediaStatistics {
            timestamp_us: r.us,
            audio_sender_statistics_size: r.audio.len() as u32,
            audio_sender_statistics: p(&r.audio),
            video_sender_statistics_size: r.video.len() as u32,
            video_sender_statistics: p(&r.video),
            audio_receiver_statistics_size: r.audio_recv.len() as u32,
            audio_receiver_statistics: p(&r.audio_recv),
            video_receiver_statistics_size: r.video_recv.len() as u32,
            video_receiver_statistics: p(&r.video_recv),
            nominated_connection_statistics: r.nominated.clone(),
            connection_statistics: std::ptr::null(),
            connection_statistics_size: 0,
        };
        let json = CString::new(json).unwrap();
        (self.on)(&*self.o as *const StatsObserver as *const c_void, &m, json.as_ptr());
        let v = self.seen.0.lock().unwrap().clone();
        sx::check!(v.len() >= 4 && v[0] == Snap::Begin && v[1] == Snap::System);
        sx::check!(matches!(v[2], Snap::Connection(77, us, ..) if us == r.us));
        sx::check!(*v.last().unwrap() == Snap::End);
        v[2..v.len() - 1].to_vec()
    }
}
/// a / b, or 0 where there is nothing to divide by.
fn ratio(a: f32, b: f32) -> f64 {
    let r = a / b;
    (if r.is_finite() { r } else { 0.0 }) as f64
}
fn ratio64(a: f64, b: f64, or: f64) -> f64 {
    let r = a / b;
    if r.is_finite() { r } else { or }
}
fn finite(v: &[f64]) {
    for x in v {
        sx::check!(x.is_finite());
    }
}
/// How long before the second report the first one was.
fn elapsed() -> (i64, f32) {
    [(0, 0.0), (500_000, 0.5), (10_000_000, 10.0)][sx::pick(0, 2) as usize]
}
fn small() -> u32 {
    sx::range(0, 5000) as u32
}
/// What others are divided by: solvers are no good at dividing by what is unknown.
fn some() -> u32 {
    [100, 90, 103, 5000][sx::pick(0, 3) as usize]
}
const US: i64 = 3_000_000;

//@ harness bound="2_reports_0_to_10_s_apart,counters_up_to_5000_that_may_start_over"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_audio_sender() {
    let w = World::new(2);
    let mut s = AudioSenderStatistics {
        ssrc: 5,
        packets_sent: 100,
        bytes_sent: small() as u64,
        remote_packets_lost: -2,
        remote_jitter: 0.25,
        remote_round_trip_time: 0.5,
        total_audio_energy: 3.0,
    };
    let (us, secs) = elapsed();
    let a = s.clone();
    let first = w.report(&Report { us: US, audio: vec![s.clone()], ..Default::default() }, "a");
    s.packets_sent = some();
    s.bytes_sent = small() as u64;
    s.remote_packets_lost = [-4, -2, 1, 98][sx::pick(0, 3) as usize];
    s.remote_jitter = 0.5;
    s.total_audio_energy = [2.0, 7.5][sx::pick(0, 1) as usize];
    let second = w.report(&Report { us: US + us, audio: vec![s.clone()], ..Default::default() }, "b");
    let (dp, db) = (
        s.packets_sent.saturating_sub(a.packets_sent) as f32,
        s.bytes_sent.saturating_sub(a.bytes_sent) as f32,
    );
    let lost = (s.remote_packets_lost + 2).max(0) as u32 as f32;
    let want = vec![
        ratio(dp, secs),
        ratio(db, dp),
        ratio(db * 8.0, secs),
        ratio(lost * 100.0, dp),
        500.0,
        500.0,
        (s.total_audio_energy - 3.0).max(0.0),
    ];
    // from the call's start
    let Snap::Audio(5, f) = &first[1] else { panic!() };
    sx::check!(f[0] == ratio(a.packets_sent as f32, 2.0) && f[4] == 250.0 && f[6] == 3.0);
    sx::check!(second[1] == Snap::Audio(5, want.clone()));
    finite(&want);
    sx::cover!(lost > 0.0 && secs > 1.0);
}

//@ harness bound="2_reports_0_to_10_s_apart,counters_up_to_5000_that_may_start_over"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_video_receiver() {
    let w = World::new(2);
    let name = CString::new("dec").unwrap();
    let mut s = VideoReceiverStatistics {
        ssrc: 6,
        packets_received: 100,
        packets_lost: -2,
        bytes_received: small() as u64,
        frames_decoded: 100,
        key_frames_decoded: 3,
        total_decode_time: 2.0,
        frame_width: sx::u32(),
        frame_height: sx::u32(),
        freeze_count: 2,
        jitter: 0.5,
        codec: StatsVideoCodecType::Vp8,
        ..Default::default()
    };
    let (us, secs) = elapsed();
    let a = s.clone();
    w.report(&Report { us: US, video_recv: vec![s.clone()], ..Default::default() }, "a");
    s.packets_received = some();
    s.packets_lost = [-4, -2, 1, 98][sx::pick(0, 3) as usize];
    s.bytes_received = small() as u64;
    s.frames_decoded = some();
    s.key_frames_decoded = 1 + small();
    s.total_decode_time = 4.5;
    s.freeze_count = 7;
    s.jitter = [0.25, 0.75][sx::pick(0, 1) as usize];
    s.raw_decoder_implementation = Borrowed::from_ptr(name.as_ptr());
    let second = w.report(&Report { us: US + us, video_recv: vec![s.clone()], ..Default::default() }, "b");
    let dp = s.packets_received.saturating_sub(a.packets_received);
    let db = s.bytes_received.saturating_sub(a.bytes_received) as f32;
    let df = s.frames_decoded.saturating_sub(a.frames_decoded);
    let lost = (s.packets_lost - a.packets_lost).max(0) as u32;
    let want = vec![
        ratio(dp as f32, secs),
        ratio(lost as f32 * 100.0, (dp + lost) as f32),
        ratio(db * 8.0, secs),
        ratio(df as f32, secs),
        s.key_frames_decoded.saturating_sub(3) as f64,
        1000.0 * ratio64(2.5, df as f64, 0.0),
        s.frame_width as f64,
        s.frame_height as f64,
        // in milliseconds, like all the others
        1000.0 * s.jitter,
        5.0,
        8.0,
    ];
    sx::check!(second[1] == Snap::VideoRecv(6, want.clone(), Some("dec".into())));
    finite(&want);
    sx::cover!(lost > 0);
    sx::cover!(secs == 0.0);
}

//@ harness bound="2_reports_0_to_10_s_apart,counters_up_to_5000_that_may_start_over"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_audio_receiver() {
    let w = World::new(2);
    let a = AudioReceiverStatistics {
        ssrc: 8,
        packets_received: 100,
        packets_lost: [0, -2, 7][sx::pick(0, 2) as usize],
        bytes_received: small() as u64,
        jitter: 0.5,
        total_audio_energy: 3.0,
        jitter_buffer_delay: 2.0,
        jitter_buffer_target_delay: 3.0,
        jitter_buffer_emitted_count: 100,
        jitter_buffer_flushes: small() as u64,
        total_samples_received: 50,
        concealed_samples: 20,
        silent_concealed_samples: 10,
        fec_packets_received: small() as u64,
        packets_discarded: 4,
        relative_packet_arrival_delay: 1.0,
        ..Default::default()
    };
    let (us, secs) = elapsed();
    let first = w.report(&Report { us: US, audio_recv: vec![a.clone()], ..Default::default() }, "a");
    let mut s = a.clone();
    s.packets_received = [100, 90, 103][sx::pick(0, 2) as usize];
    s.packets_lost = [-4, -2, 1, 98][sx::pick(0, 3) as usize];
    s.packets_discarded = [4, 3, 9][sx::pick(0, 2) as usize];
    match sx::pick(0, 3) {
        // nothing was played: the delay is still what it was
        0 => (),
        1 => s.jitter_buffer_emitted_count = 104,
        2 => {
            s.jitter_buffer_emitted_count = 108;
            s.jitter_buffer_delay = 4.5;
            s.jitter_buffer_target_delay = 5.0;
        }
        _ => {
            s.total_samples_received = 100;
            s.concealed_samples = [20, 45, 19][sx::pick(0, 2) as usize];
            s.silent_concealed_samples = [10, 15, 40][sx::pick(0, 2) as usize];
            s.relative_packet_arrival_delay = 1.5;
        }
    }
    s.bytes_received = small() as u64;
    s.jitter_buffer_flushes = small() as u64;
    s.fec_packets_received = small() as u64;
    s.total_audio_energy = [2.0, 7.5][sx::pick(0, 1) as usize];
    let second =
        w.report(&Report { us: US + us, audio_recv: vec![s.clone()], ..Default::default() }, "b");
    let lost = s.packets_lost - a.packets_lost;
    let dp = s.packets_received.saturating_sub(a.packets_received);
    let dropped = lost + s.packets_discarded.saturating_sub(4) as i32;
    let expected = dp as i32 + lost;
    let emitted = (s.jitter_buffer_emitted_count - 100) as f64;
    let concealed = s
        .concealed_samples
        .saturating_sub(20)
        .saturating_sub(s.silent_concealed_samples.saturating_sub(10));
    let want = vec![
        ratio(dp as f32, secs),
        if expected > 0 { (dropped.max(0) as f32 * 100.0 / expected as f32) as f64 } else { 0.0 },
        ratio(s.bytes_received.saturating_sub(a.bytes_received) as f32 * 8.0, secs),
        500.0,
        if emitted > 0.0 { 1000.0 * ((s.jitter_buffer_delay - 2.0) / emitted) } else { 20.0 },
        if emitted > 0.0 { 1000.0 * ((s.jitter_buffer_target_delay - 3.0) / emitted) } else { 30.0 },
        s.jitter_buffer_flushes.saturating_sub(a.jitter_buffer_flushes) as f64,
        (s.total_audio_energy - 3.0).max(0.0),
        ratio(concealed as f32 * 100.0, s.total_samples_received.saturating_sub(50) as f32),
        s.fec_packets_received.saturating_sub(a.fec_packets_received) as f64,
        1000.0 * ratio64(s.relative_packet_arrival_delay - 1.0, dp as f64, 0.0),
    ];
    let Snap::AudioRecv(8, f) = &first[1] else { panic!() };
    sx::check!(f[4] == 20.0 && f[5] == 30.0 && f[3] == 500.0 && f[10] == 10.0 && f[8] == 20.0);
    let Snap::AudioRecv(8, g) = &second[1] else { panic!() };
    for (i, x) in want.iter().enumerate() {
        // what is not computed in the same order may differ in the last digit
        sx::check!(if i == 10 { (g[i] - x).abs() < 0.001 } else { g[i] == *x });
    }
    finite(g);
    sx::check!(g[1] >= 0.0);
    // nothing happens for a while
    let third = w.report(
        &Report { us: US + us + 1_000_000, audio_recv: vec![s.clone()], ..Default::default() },
        "c",
    );
    let Snap::AudioRecv(8, h) = &third[1] else { panic!() };
    sx::check!((h[4], h[5]) == (g[4], g[5]));
    sx::check!(h[0] == 0.0 && h[1] == 0.0 && h[2] == 0.0 && h[6] == 0.0 && h[8] == 0.0);
    sx::cover!(lost < 0 && g[1] > 0.0);
    sx::cover!(emitted == 0.0);
    sx::cover!(g[8] > 0.0);
}

//@ harness bound="2_reports_0_to_10_s_apart,any_of_6_counters_may_start_over,any_reason"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_video_sender() {
    let w = World::new(2);
    let name = CString::new("enc").unwrap();
    let a = VideoSenderStatistics {
        ssrc: 9,
        packets_sent: 100,
        bytes_sent: 1000,
        frames_encoded: 50,
        key_frames_encoded: 5,
        total_encode_time: 2.0,
        frame_width: 320,
        frame_height: 240,
        retransmitted_packets_sent: 10,
        retransmitted_bytes_sent: 500,
        total_packet_send_delay: 4.0,
        nack_count: 6,
        pli_count: 7,
        quality_limitation_reason: 0,
        quality_limitation_resolution_changes: 3,
        remote_packets_lost: 2,
        remote_jitter: 0.5,
        remote_round_trip_time: 0.25,
        codec: StatsVideoCodecType::Vp8,
        ..Default::default()
    };
    let (us, secs) = elapsed();
    let first = w.report(&Report { us: US, video: vec![a.clone()], ..Default::default() }, "a");
    let Snap::Video(9, f, r, None) = &first[1] else { panic!() };
    sx::check!(r == "none" && f[0] == 50.0 && f[1] == 10.0 && f[6] == 320.0 && f[17] == 8.0);
    sx::check!(f[5] == 40.0 && f[10] == 40.0 && f[15] == 500.0 && f[16] == 250.0);
    let mut s = a.clone();
    s.packets_sent = 108;
    s.bytes_sent = 1000 + [0, 1, 777][sx::pick(0, 2) as usize];
    s.frames_encoded = 54;
    s.key_frames_encoded = 5 + small();
    s.total_encode_time = 3.0;
    s.frame_width = sx::u32();
    s.frame_height = sx::u32();
    s.retransmitted_packets_sent = small() as u64;
    s.retransmitted_bytes_sent = [500, 555][sx::pick(0, 1) as usize];
    s.total_packet_send_delay = 4.5;
    s.nack_count = 6 + small();
    s.pli_count = 7 + small();
    s.quality_limitation_resolution_changes = small();
    s.remote_packets_lost = [0, 2, 4][sx::pick(0, 2) as usize];
    s.codec = StatsVideoCodecType::Vp9;
    s.raw_encoder_implementation = Borrowed::from_ptr(name.as_ptr());
    // entering or leaving screen share starts the stream over
    let reset = match sx::pick(0, 7) {
        0 => {
            s.packets_sent = 99;
            true
        }
        1 => {
            s.bytes_sent = 999;
            true
        }
        2 => {
            s.frames_encoded = 49;
            true
        }
        3 => {
            s.key_frames_encoded = 4;
            true
        }
        4 => {
            s.nack_count = 5;
            true
        }
        5 => {
            s.pli_count = 6;
            true
        }
        6 => {
            s.packets_sent = 100;
            s.frames_encoded = 50;
            false
        }
        _ => false,
    };
    let z = if reset { VideoSenderStatistics::default() } else { a.clone() };
    let second = w.report(&Report { us: US + us, video: vec![s.clone()], ..Default::default() }, "b");
    let dp = s.packets_sent - z.packets_sent;
    let df = s.frames_encoded - z.frames_encoded;
    let lost = (s.remote_packets_lost - z.remote_packets_lost).max(0);
    let want = [
        ratio(dp as f32, secs),
        ratio((s.bytes_sent - z.bytes_sent) as f32, dp as f32),
        ratio((s.bytes_sent - z.bytes_sent) as f32 * 8.0, secs),
        ratio(df as f32, secs),
        (s.key_frames_encoded - z.key_frames_encoded) as f64,
        1000.0 * ratio64(s.total_encode_time - z.total_encode_time, df as f64, 0.0),
        s.frame_width as f64,
        s.frame_height as f64,
        s.retransmitted_packets_sent.saturating_sub(z.retransmitted_packets_sent) as f64,
        ratio((s.retransmitted_bytes_sent - z.retransmitted_bytes_sent) as f32 * 8.0, secs),
        1000.0 * ratio64(s.total_packet_send_delay - z.total_packet_send_delay, dp as f64, 0.0),
        (s.nack_count - z.nack_count) as f64,
        (s.pli_count - z.pli_count) as f64,
        s.quality_limitation_resolution_changes
            .saturating_sub(z.quality_limitation_resolution_changes) as f64,
        ratio(lost as f32 * 100.0, dp as f32),
        500.0,
        250.0,
        9.0,
    ];
    let Snap::Video(9, g, r, e) = &second[1] else { panic!() };
    sx::check!(g[..] == want[..]);
    sx::check!(r == "none" && e.as_deref() == Some("enc"));
    finite(g);
    sx::cover!(reset && secs > 1.0);
    sx::cover!(!reset && dp == 0);
}

//@ harness bound="any_reason,3_codecs"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_video_reason() {
    let w = World::new(2);
    let n = match sx::pick(0, 1) {
        0 => sx::range(0, 12) as u32,
        _ => u32::MAX,
    };
    let codec = [StatsVideoCodecType::Invalid, StatsVideoCodecType::Vp8, StatsVideoCodecType::Vp9]
        [sx::pick(0, 2) as usize];
    sx::check!(format!("{codec}") == ["Invalid", "VP8", "VP9"][(codec as usize + 7) / 8]);
    let n = sx::conc(n as u64) as u32;
    let s = VideoSenderStatistics { ssrc: 9, quality_limitation_reason: n, codec, ..Default::default() };
    let v = w.report(&Report { us: US, video: vec![s], ..Default::default() }, "a");
    let Snap::Video(9, f, r, None) = &v[1] else { panic!() };
    match n {
        0 => sx::check!(r == "none"),
        1 => sx::check!(r == "cpu"),
        2 => sx::check!(r == "bandwidth"),
        3 => sx::check!(r == "other"),
        _ => sx::check!(*r == n.to_string()),
    }
    sx::check!(f[17] == codec as u32 as f64);
    finite(f);
    sx::cover!(n == 12);
}

//@ harness bound="2_streams_of_4_kinds_in_3_reports"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_streams_are_separate() {
    // of every kind two streams, also under the same number in another kind
    let w = World::new(1);
    let at = |n: u32, k: u32, us: i64| {
        let v = |ssrc: u32| n * if ssrc == 5 { 10 } else { 30 } + k;
        let mut r = Report { us, ..Default::default() };
        for ssrc in [5, 6] {
            r.audio.push(AudioSenderStatistics { ssrc, packets_sent: v(ssrc), ..Default::default() });
            r.video.push(VideoSenderStatistics { ssrc, packets_sent: 2 * v(ssrc), ..Default::default() });
            r.audio_recv.push(AudioReceiverStatistics {
                ssrc,
                packets_received: 3 * v(ssrc),
                ..Default::default()
            });
            r.video_recv.push(VideoReceiverStatistics {
                ssrc,
                packets_received: 4 * v(ssrc),
                ..Default::default()
            });
        }
        r
    };
    let k = [0, 1, 5000][sx::pick(0, 2) as usize];
    let order = sx::pick(0, 1) == 1;
    let flip = |mut r: Report| {
        if order {
            r.audio.reverse();
            r.video.reverse();
            r.audio_recv.reverse();
            r.video_recv.reverse();
        }
        r
    };
    w.report(&at(1, k, US), "a");
    // a report without them
    let mid = sx::pick(0, 1) == 1;
    if mid {
        let v = w.report(&Report { us: US + 500_000, ..Default::default() }, "b");
        sx::check!(v.len() == 1);
    }
    let v = w.report(&flip(at(2, k, US + 1_000_000)), "c");
    sx::check!(v.len() == 9);
    let secs = if mid { 0.5 } else { 1.0 };
    let mut seen = vec![];
    for s in &v[1..] {
        let (kind, ssrc, pps) = match s {
            Snap::Audio(n, f) => (1, *n, f[0]),
            Snap::Video(n, f, ..) => (2, *n, f[0]),
            Snap::AudioRecv(n, f) => (3, *n, f[0]),
            Snap::VideoRecv(n, f, _) => (4, *n, f[0]),
            _ => panic!(),
        };
        let d = kind as f64 * if ssrc == 5 { 10.0 } else { 30.0 };
        // the rate is over the time since the last report
        sx::check!(pps == d / secs);
        seen.push((kind, ssrc));
    }
    // senders before receivers, in the order of the report
    let (a, b) = if order { (6, 5) } else { (5, 6) };
    sx::check!(seen == [(1, a), (1, b), (2, a), (2, b), (3, a), (3, b), (4, a), (4, b)]);
    sx::cover!(order);
}

fn route(n: u32) -> NetworkRoute {
    NetworkRoute {
        local_adapter_type: NetworkAdapterType::Wifi,
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: n & 1 == 1,
        local_relay_protocol: if n & 2 == 2 { TransportProtocol::Tls } else { TransportProtocol::Udp },
        remote_relayed: n & 4 == 4,
    }
}
//@ harness bound="5_steps_reports_or_route_changes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_network_route() {
    let mut w = World::new(1);
    let mut us = US;
    // what held at the end of the last report, and what holds now
    let (mut before, mut now) = (None, None);
    for _ in 0..5 {
        if sx::pick(0, 1) == 1 {
            let n = route(if now.is_none() { sx::pick(0, 7) } else { sx::pick(0, 1) } as u32);
            w.o.set_network_route(n);
            now = Some(n);
        } else {
            us += 1;
            let mut c = ConnectionStatistics::default();
            c.current_round_trip_time = 0.5;
            c.available_outgoing_bitrate = 7.0;
            c.requests_sent = 1;
            c.responses_received = 2;
            c.requests_received = 3;
            c.responses_sent = 4;
            let v = w.report(&Report { us, nominated: c, ..Default::default() }, "");
            let Snap::Connection(_, _, f, n, r) = &v[0] else { panic!() };
            sx::check!(*f == [500.0, 7.0] && *n == [1, 2, 3, 4]);
            // the time reported on is what was spent on the route that was there
            sx::check!(*r == before.or(now));
            before = now;
        }
    }
    sx::cover!(before.is_some() && before != now);
}

//@ harness bound="5_steps"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_raw_report() {
    let w = World::new(1);
    let mut last: Option<&str> = None;
    sx::check!(w.o.take_stats_report().is_none());
    for i in 0..5 {
        match sx::pick(0, 4) {
            0 => {
                let t = ["{}", "[1]", "", "\u{e9}"][i % 4];
                w.report(&Report { us: US + i as i64, ..Default::default() }, t);
                last = if t.is_empty() { None } else { Some(t) };
            }
            // each is taken once, and by whoever is first
            1 => sx::check!(w.o.take_stats_report().as_deref() == last.take()),
            2 => {
                let on = sx::pick(0, 1) == 1;
                w.o.set_collect_raw_stats_report(on);
                sx::check!(SEEN.lock().unwrap().2 == on);
            }
            // WebRTC has nothing to say, or nobody to say it to
            3 => {
                let s = CString::new("x").unwrap();
                (w.on)(&*w.o as *const StatsObserver as *const c_void, std::ptr::null(), s.as_ptr());
                sx::check!(w.seen.0.lock().unwrap().len() < 5);
            }
            _ => (w.on)(std::ptr::null(), std::ptr::null(), std::ptr::null()),
        }
    }
    sx::check!(w.o.take_stats_report().as_deref() == last);
    sx::check!(crate::rc::count(OBS as *const u8) == 1);
    drop(w);
    sx::check!(crate::rc::gone() == [OBS]);
    sx::cover!(last == Some("\u{e9}"));
}

//@ harness bound="60_reports,streams_unseen_for_0_to_20_minutes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_j_old_streams() {
    // a stream that was not heard of for 10 minutes is forgotten, at the 60th report at the latest
    let w = World::new(1);
    let r = |us: i64, n: u32, here: bool, other: bool| {
        let mut r = Report { us, ..Default::default() };
        for (ssrc, on) in [(1, here), (2, other)] {
            if on {
                r.audio_recv.push(AudioReceiverStatistics { ssrc, packets_received: n, ..Default::default() });
                r.video_recv.push(VideoReceiverStatistics { ssrc, packets_received: n, ..Default::default() });
            }
        }
        r
    };
    let minutes = [0u64, 9, 11, 20][sx::pick(0, 3) as usize];
    w.report(&r(US, 100, true, true), "");
    for i in 1..58 {
        w.report(&r(US + i, 100, false, true), "");
    }
    sx::clock(1_000_000_000_000 + minutes * 60_000_000_000);
    w.report(&r(US + 58, 100, false, true), "");
    w.report(&r(US + 59, 100, false, true), "");
    let v = w.report(&r(US + 1_000_059, 110, true, true), "");
    for s in &v[1..] {
        let (n, pps) = match s {
            Snap::AudioRecv(n, f) => (*n, f[0]),
            Snap::VideoRecv(n, f, _) => (*n, f[0]),
            _ => panic!(),
        };
        sx::check!(pps == if n == 1 && minutes > 10 { 110.0 } else { 10.0 });
    }
    sx::check!(v.len() == 5);
    sx::cover!(minutes == 11);
}
