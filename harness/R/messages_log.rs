//@ property=P01
// What a signaling message prints as tells its kind and size, and nothing of what it carries.
use ringrtc::common::CallMediaType;
use ringrtc::core::signaling::*;
use ringrtc::protobuf::signaling::{ConnectionParametersV4, VideoCodec};

/// Printable text of a length, different from call to call.
fn secret(n: usize) -> String {
    let v = sx::ascii(n);
    sx::assume(v.bytes().all(|b| b.is_ascii_alphanumeric()));
    v
}
fn params(n: usize) -> ConnectionParametersV4 {
    ConnectionParametersV4 {
        public_key: Some(sx::vec(n)),
        ice_ufrag: Some(secret(n)),
        ice_pwd: Some(secret(n)),
        receive_video_codecs: vec![VideoCodec::default()],
        max_bitrate_bps: None,
        ..Default::default()
    }
}
fn media(video: bool) -> CallMediaType {
    if video { CallMediaType::Video } else { CallMediaType::Audio }
}
fn offer(video: bool, n: usize) -> Offer {
    Offer::from_v4(media(video), params(n)).unwrap()
}
fn answer(n: usize) -> Answer {
    Answer::from_v4(params(n)).unwrap()
}
fn candidates(n: usize) -> Vec<IceCandidate> {
    (0..n).map(|_| IceCandidate::new(sx::vec(3))).collect()
}

/// Two messages that differ only in their contents print the same.
//@ harness bound="offers,answers,candidates_with_keys_and_passwords_of_1_to_3_unknown_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_messages() {
    let n = sx::range(1, 3) as usize;
    let n = sx::conc(n as u64) as usize;
    let video = sx::concb(sx::bool());
    let (a, b, kind) = match sx::pick(0, 2) {
        0 => {
            let (a, b) = (offer(video, n), offer(video, n));
            sx::check!(a.to_info_string() == b.to_info_string());
            sx::check!(a.to_info_string().contains(&format!("opaque.len={}", a.opaque.len())));
            sx::check!(a.to_info_string().contains(if video { "Video" } else { "Audio" }));
            (Message::Offer(a), Message::Offer(b), "Offer")
        }
        1 => {
            let (a, b) = (answer(n), answer(n));
            sx::check!(a.to_info_string() == b.to_info_string());
            sx::check!(a.to_info_string().contains(&format!("opaque.len={}", a.opaque.len())));
            (Message::Answer(a), Message::Answer(b), "Answer")
        }
        _ => {
            let (a, b) = (candidates(n), candidates(n));
            for (a, b) in a.iter().zip(&b) {
                sx::check!(a.to_info_string() == b.to_info_string());
                sx::check!(a.to_info_string() == "opaque.len=3");
            }
            (
                Message::Ice(Ice { candidates: a }),
                Message::Ice(Ice { candidates: b }),
                "Ice",
            )
        }
    };
    sx::check!(a.to_string() == b.to_string());
    sx::check!(format!("{a:?}") == format!("{b:?}"));
    sx::check!(a.to_string().contains(kind));
    sx::cover!(video);
    sx::cover!(kind == "Answer");
    sx::cover!(kind == "Ice");
}
