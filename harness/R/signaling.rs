//@ property=S01
// Call setup messages: what goes on the wire, and what comes back from it.
use ringrtc::common::CallMediaType;
use ringrtc::core::signaling::*;
use ringrtc::protobuf::signaling as pb;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

// A protobuf writer that owes nothing to the code under check.
fn varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn bytes_field(out: &mut Vec<u8>, tag: u8, b: &[u8]) {
    out.push(tag << 3 | 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn varint_field(out: &mut Vec<u8>, tag: u8, v: u64) {
    out.push(tag << 3);
    varint(out, v);
}

fn any_ip(v6: bool) -> (IpAddr, Vec<u8>) {
    if v6 {
        let b = sx::bytes::<16>();
        (IpAddr::V6(Ipv6Addr::from(b)), b.to_vec())
    } else {
        let b = sx::bytes::<4>();
        (IpAddr::V4(Ipv4Addr::from(b)), b.to_vec())
    }
}

/// Removing a candidate names exactly the address removed, and older clients still find a
/// candidate that pairs with nothing.
//@ harness bound="any_IPv4_or_IPv6_address,any_port"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_removed() {
    let (ip, octets) = any_ip(sx::concb(sx::bool()));
    let port = sx::u16();
    let addr = SocketAddr::new(ip, port);
    let c = IceCandidate::from_removed_address(addr).unwrap();
    sx::check!(c.removed_address() == Some(addr));
    const FAKE: &str = "candidate:FAKE 1 tcp 0 127.0.0.1 0 typ host";
    sx::check!(c.v3_sdp().as_deref() == Some(FAKE));
    let mut sa = vec![];
    bytes_field(&mut sa, 1, &octets);
    varint_field(&mut sa, 2, port as u64);
    let mut sdp = vec![];
    bytes_field(&mut sdp, 1, FAKE.as_bytes());
    let mut want = vec![];
    bytes_field(&mut want, 2, &sdp);
    bytes_field(&mut want, 3, &sa);
    sx::check!(c.opaque == want);
    sx::check!(IceCandidate::new(want).removed_address() == Some(addr));
    sx::cover!(ip.is_ipv6());
    sx::cover!(ip.is_ipv4());
}

/// Addresses that are none are refused.
//@ harness bound="addresses_of_0..17_bytes,any_32-bit_port"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_removed_hostile() {
    let n = sx::pick(0, 17) as usize;
    let ip = sx::vec(n);
    let has_ip = sx::concb(sx::bool());
    let has_port = sx::concb(sx::bool());
    let port = sx::u32();
    let mut sa = vec![];
    if has_ip {
        bytes_field(&mut sa, 1, &ip);
    }
    if has_port {
        varint_field(&mut sa, 2, port as u64);
    }
    let mut m = vec![];
    bytes_field(&mut m, 3, &sa);
    let c = IceCandidate::new(m);
    sx::check!(c.v3_sdp().is_none());
    match c.removed_address() {
        Some(a) => {
            sx::check!(has_ip && has_port && port <= 0xffff && (n == 4 || n == 16));
            sx::check!(a.port() as u32 == port);
            match a.ip() {
                IpAddr::V4(v) => sx::check!(n == 4 && v.octets()[..] == ip[..]),
                IpAddr::V6(v) => sx::check!(n == 16 && v.octets()[..] == ip[..]),
            }
            sx::cover!();
        }
        None => {
            sx::check!(!has_ip || !has_port || port > 0xffff || (n != 4 && n != 16));
            sx::cover!(has_ip && has_port && n == 4);
        }
    }
}

/// An added candidate carries its description unchanged.
//@ harness bound="any_ASCII_description_of_0..8_characters"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_added() {
    let n = sx::pick(0, 8) as usize;
    let s = sx::ascii(n);
    let c = IceCandidate::from_v3_sdp(s.clone()).unwrap();
    let mut sdp = vec![];
    bytes_field(&mut sdp, 1, s.as_bytes());
    let mut want = vec![];
    bytes_field(&mut want, 2, &sdp);
    sx::check!(c.opaque == want);
    sx::check!(c.v3_sdp() == Some(s));
    sx::check!(c.removed_address().is_none());
    sx::cover!(n == 8);
}

/// No received bytes crash the parser, and what is refused stays refused.
//@ harness bound="any_opaque_candidate,offer_or_answer_of_0..4_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_hostile() {
    let n = sx::pick(0, 4) as usize;
    let b = sx::vec(n);
    match sx::pick(0, 2) {
        0 => {
            let c = IceCandidate::new(b.clone());
            let (s, r) = (c.v3_sdp(), c.removed_address());
            sx::check!(c.opaque == b);
            sx::check!(r.is_none());
            sx::check!(s.is_none() || n >= 4);
            sx::cover!(s.is_some());
        }
        1 => {
            if let Ok(o) = Offer::new(CallMediaType::Video, b.clone()) {
                sx::check!(o.opaque == b && o.call_media_type == CallMediaType::Video);
                let v4 = o.to_v4();
                sx::check!(v4.is_none() || n >= 2);
                sx::cover!(v4.is_some());
            }
        }
        _ => {
            if let Ok(o) = Answer::new(b.clone()) {
                sx::check!(o.opaque == b);
                let v4 = o.to_v4();
                sx::check!(v4.is_none() || n >= 2);
                sx::cover!(v4.is_some());
            }
        }
    }
}

fn codecs(ts: &[i32]) -> Vec<pb::VideoCodec> {
    ts.iter().map(|t| pb::VideoCodec { r#type: Some(*t) }).collect()
}

/// Offers and answers carry the connection parameters in the documented fields, and hand back
/// exactly what was put in.
//@ harness bound="any_3-byte_key,2-character_credentials,any_bitrate,0..2_codecs_of_each_kind"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_params() {
    let key = sx::vec(3);
    let (u, p) = (sx::ascii(2), sx::ascii(2));
    let rate = if sx::concb(sx::bool()) { Some(sx::u64()) } else { None };
    let all = [8, 9, 40, 46];
    let k = sx::pick(0, 2) as usize;
    let (rx, enc, dec) = (codecs(&all[..k]), codecs(&all[2..2 + k.min(1)]), codecs(&all[3 - k..3]));
    let v4 = pb::ConnectionParametersV4 {
        public_key: Some(key.clone()),
        ice_ufrag: Some(u.clone()),
        ice_pwd: Some(p.clone()),
        receive_video_codecs: rx.clone(),
        max_bitrate_bps: rate,
        encode_only_video_codecs: enc.clone(),
        decode_only_video_codecs: dec.clone(),
    };
    let mut m = vec![];
    bytes_field(&mut m, 1, &key);
    bytes_field(&mut m, 2, u.as_bytes());
    bytes_field(&mut m, 3, p.as_bytes());
    let put = |m: &mut Vec<u8>, tag, cs: &Vec<pb::VideoCodec>| {
        for c in cs {
            let mut x = vec![];
            varint_field(&mut x, 1, c.r#type.unwrap() as u64);
            bytes_field(m, tag, &x);
        }
    };
    put(&mut m, 4, &rx);
    if let Some(r) = rate {
        varint_field(&mut m, 5, r);
    }
    put(&mut m, 6, &enc);
    put(&mut m, 7, &dec);
    let mut want = vec![];
    bytes_field(&mut want, 4, &m);
    if sx::concb(sx::bool()) {
        let o = Offer::from_v4(CallMediaType::Audio, v4.clone()).unwrap();
        sx::check!(o.opaque == want);
        sx::check!(o.to_v4() == Some(v4.clone()));
        sx::check!(o.latest_version() == Version::V4);
        let r = Offer::new(CallMediaType::Video, want.clone()).unwrap();
        sx::check!(r.to_v4() == Some(v4) && r.opaque == want);
        sx::check!(r.call_media_type == CallMediaType::Video);
        sx::cover!(k == 2);
    } else {
        let o = Answer::from_v4(v4.clone()).unwrap();
        sx::check!(o.opaque == want);
        sx::check!(o.to_v4() == Some(v4.clone()));
        sx::check!(o.latest_version() == Version::V4);
        let r = Answer::new(want.clone()).unwrap();
        sx::check!(r.to_v4() == Some(v4) && r.opaque == want);
        sx::cover!(k == 2);
    }
}

/// Hangups keep their meaning and device through their numeric form.
//@ harness bound="any_32-bit_type,any_device_id"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_hangup() {
    let v = sx::u32() as i32;
    let dev = sx::u32();
    let t = HangupType::from_i32(v);
    sx::check!(t.is_some() == (0..=4).contains(&v));
    let Some(t) = t else { return };
    sx::check!(t as i32 == v);
    let h = Hangup::from_type_and_device_id(t, dev);
    sx::check!(
        h == match v {
            0 => Hangup::Normal,
            1 => Hangup::AcceptedOnAnotherDevice(dev),
            2 => Hangup::DeclinedOnAnotherDevice(dev),
            3 => Hangup::BusyOnAnotherDevice(dev),
            _ => Hangup::NeedPermission(Some(dev)),
        }
    );
    let (t2, d2) = h.to_type_and_device_id();
    sx::check!(t2 == t);
    sx::check!(d2 == if v == 0 { None } else { Some(dev) });
    let (t3, d3) = Hangup::NeedPermission(None).to_type_and_device_id();
    sx::check!(t3 == HangupType::NeedPermission && d3.is_none());
    sx::cover!(v == 0);
    sx::cover!(v == 4);
}

/// Each message says what kind it is.
//@ harness bound="all_five_kinds"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_kind() {
    let k = sx::pick(0, 4);
    let m = match k {
        0 => Message::Offer(Offer::new(CallMediaType::Audio, vec![]).unwrap()),
        1 => Message::Answer(Answer::new(vec![]).unwrap()),
        2 => Message::Ice(Ice { candidates: vec![] }),
        3 => Message::Hangup(Hangup::Normal),
        _ => Message::Busy,
    };
    sx::check!(m.typ() as i32 == k as i32);
    sx::cover!(k == 4);
}

/// A description that is not text is no description.
//@ harness bound="any_description_of_0..3_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_s_added_bytes() {
    let n = sx::pick(0, 3) as usize;
    let b = sx::vec(n);
    let mut sdp = vec![];
    bytes_field(&mut sdp, 1, &b);
    let mut m = vec![];
    bytes_field(&mut m, 2, &sdp);
    let got = IceCandidate::new(m).v3_sdp();
    let want = String::from_utf8(b).ok();
    sx::check!(got == want);
    sx::cover!(n == 3 && got.is_some());
    sx::cover!(n == 3 && got.is_none());
}
