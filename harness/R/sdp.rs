//@ property=Q01
// Session descriptions carry exactly the negotiated parameters, and their owners are never in doubt.
use ringrtc::common::units::DataRate;
use ringrtc::common::{CallConfig, DataMode};
use ringrtc::protobuf::signaling::{ConnectionParametersV4, VideoCodec, VideoCodecType};
use ringrtc::webrtc::ptr::{Owned, Unique};
use ringrtc::webrtc::sdp_observer::*;
use std::cell::RefCell;
use std::ffi::{CStr, CString, c_char, c_void};

#[repr(C)]
#[derive(Clone, Copy)]
struct RawV4 {
    ufrag: *const c_char,
    pwd: *const c_char,
    lists: [(*const i32, usize); 3],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawKey {
    suite: i32,
    key: *const u8,
    key_len: usize,
    salt: *const u8,
    salt_len: usize,
}
#[derive(Clone, PartialEq, Debug, Default)]
struct Made {
    what: &'static str,
    offer: bool,
    ufrag: Vec<u8>,
    pwd: Vec<u8>,
    lists: [Vec<i32>; 3],
    flags: Vec<bool>,
    key: (i32, Vec<u8>, Vec<u8>),
    demux: u32,
    demuxes: Vec<u32>,
}
#[derive(Default)]
struct State {
    refuse: bool,
    made: Vec<Made>,
    deleted: Vec<usize>,
    to_v4: Vec<(&'static str, usize, Vec<bool>)>,
    v4: Option<Box<RawV4>>,
    v4_deleted: usize,
    keys: Vec<(usize, i32, Vec<u8>, Vec<u8>)>,
    observer: Vec<(usize, usize)>,
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
}
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    S.with(|s| f(&mut s.borrow_mut()))
}
const BASE: usize = 0x30000;
fn desc(k: usize) -> usize {
    BASE + 16 * k
}
fn new_desc(m: Made) -> usize {
    st(|s| {
        if s.refuse {
            return 0;
        }
        s.made.push(m);
        desc(s.made.len() - 1)
    })
}
fn bytes<T: Copy>(p: *const T, n: usize) -> Vec<T> {
    if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() }
}
fn cstr(p: *const c_char) -> Vec<u8> {
    unsafe { CStr::from_ptr(p) }.to_bytes().to_vec()
}
fn raw_v4(p: *const RawV4) -> ([Vec<u8>; 2], [Vec<i32>; 3]) {
    let v = unsafe { *p };
    ([cstr(v.ufrag), cstr(v.pwd)], v.lists.map(|(p, n)| bytes(p, n)))
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_deleteSessionDescription(p: usize) {
    st(|s| s.deleted.push(p));
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_deleteV4(p: *const RawV4) {
    st(|s| {
        sx::check!(s.v4.as_deref().is_some_and(|v| std::ptr::eq(v, p)));
        s.v4_deleted += 1;
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_sessionDescriptionToV4(p: usize, encode: bool, decode: bool) -> *const RawV4 {
    st(|s| {
        s.to_v4.push(("v4", p, vec![encode, decode]));
        s.v4.as_deref().map_or(std::ptr::null(), |v| v)
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_sessionDescriptionToV4Legacy(p: usize, vp9: bool) -> *const RawV4 {
    st(|s| {
        s.to_v4.push(("legacy", p, vec![vp9]));
        s.v4.as_deref().map_or(std::ptr::null(), |v| v)
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_sessionDescriptionFromV4(
    offer: bool,
    v4: *const RawV4,
    tcc: bool,
    encode: bool,
    decode: bool,
    local: bool,
) -> usize {
    let ([ufrag, pwd], lists) = raw_v4(v4);
    let flags = vec![tcc, encode, decode, local];
    new_desc(Made { what: "v4", offer, ufrag, pwd, lists, flags, ..Default::default() })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_sessionDescriptionFromV4Legacy(
    offer: bool,
    v4: *const RawV4,
    tcc: bool,
    vp9: bool,
) -> usize {
    let ([ufrag, pwd], lists) = raw_v4(v4);
    let flags = vec![tcc, vp9];
    new_desc(Made { what: "legacy", offer, ufrag, pwd, lists, flags, ..Default::default() })
}
fn group(
    what: &'static str,
    ufrag: *const c_char,
    pwd: *const c_char,
    key: RawKey,
    demux: u32,
    ids: *const u32,
    n: usize,
) -> usize {
    new_desc(Made {
        what,
        ufrag: cstr(ufrag),
        pwd: cstr(pwd),
        key: (key.suite, bytes(key.key, key.key_len), bytes(key.salt, key.salt_len)),
        demux,
        demuxes: bytes(ids, n),
        ..Default::default()
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_localDescriptionForGroupCall(
    ufrag: *const c_char,
    pwd: *const c_char,
    key: RawKey,
    demux: u32,
    ids: *const u32,
    n: usize,
) -> usize {
    group("local", ufrag, pwd, key, demux, ids, n)
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_remoteDescriptionForGroupCall(
    ufrag: *const c_char,
    pwd: *const c_char,
    key: RawKey,
    demux: u32,
    ids: *const u32,
    n: usize,
) -> usize {
    group("remote", ufrag, pwd, key, demux, ids, n)
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_disableDtlsAndSetSrtpKey(
    p: usize,
    suite: i32,
    key: *const u8,
    key_len: usize,
    salt: *const u8,
    salt_len: usize,
) -> bool {
    st(|s| {
        s.keys.push((p, suite, bytes(key, key_len), bytes(salt, salt_len)));
        !s.refuse
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_toSdp(p: usize) -> *const c_char {
    sx::check!(p == desc(0));
    if st(|s| s.refuse) {
        return std::ptr::null();
    }
    unsafe { libc_strdup(c"v=0\r\n\xff".as_ptr()) }
}
unsafe extern "C" {
    #[link_name = "malloc"]
    fn libc_malloc(n: usize) -> *mut u8;
}
unsafe fn libc_strdup(s: *const c_char) -> *const c_char {
    let b = unsafe { CStr::from_ptr(s) }.to_bytes_with_nul();
    unsafe {
        let p = libc_malloc(b.len());
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
        p as *const c_char
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_createCreateSessionDescriptionObserver(o: usize, cb: usize) -> usize {
    st(|s| s.observer.push((o, cb)));
    rc::new((BASE + 8) as *const c_void) as usize
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_createSetSessionDescriptionObserver(o: usize, cb: usize) -> usize {
    st(|s| s.observer.push((o, cb)));
    rc::new((BASE + 12) as *const c_void) as usize
}

/// The descriptions that nobody has any more.
pub fn deleted() -> Vec<usize> {
    st(|s| s.deleted.clone())
}
fn held(asym: Option<bool>) -> SessionDescription {
    let p = new_desc(Made { what: "given", ..Default::default() });
    SessionDescription::new(unique(p), asym)
}
fn unique(p: usize) -> Unique<RffiSessionDescription> {
    Unique::from(unsafe { Owned::from_ptr(p as *const RffiSessionDescription) })
}
fn config() -> CallConfig {
    CallConfig {
        enable_tcc_audio: sx::concb(sx::bool()),
        enable_vp9_encode: sx::concb(sx::bool()),
        enable_vp9_decode: sx::concb(sx::bool()),
        ..Default::default()
    }
}
fn asym() -> Option<bool> {
    [None, Some(false), Some(true)][sx::pick(0, 2) as usize]
}
fn ascii(n: usize) -> Vec<u8> {
    let v = sx::vec(n);
    sx::assume(v.iter().all(|b| (1..128).contains(b)));
    v
}

//@ harness bound="texts_of_2_characters_or_null,codec_lists_up_to_2,any_configuration,WebRTC_refusing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_to_v4() {
    let c = config();
    let a = asym();
    let d = held(a);
    let refuse = sx::concb(sx::bool());
    let texts = [ascii(2), ascii(2)];
    let cs = texts.clone().map(|t| CString::new(t).unwrap());
    let null_text = sx::concb(sx::bool());
    let which = sx::pick(0, 2) as usize;
    let n = sx::pick(0, 2) as usize;
    let null_list = n > 0 && sx::concb(sx::bool());
    let mut lists = [vec![8], vec![9, 8], vec![9]];
    lists[which] = (0..n).map(|_| if sx::concb(sx::bool()) { 8 } else { 9 }).collect();
    let mut raw = RawV4 {
        ufrag: cs[0].as_ptr(),
        pwd: cs[1].as_ptr(),
        lists: [0, 1, 2].map(|k| (lists[k].as_ptr(), lists[k].len())),
    };
    if null_text {
        raw.pwd = std::ptr::null();
    }
    if null_list {
        raw.lists[which].0 = std::ptr::null();
        lists[which].clear();
    }
    if !refuse {
        st(|s| s.v4 = Some(Box::new(raw)));
    }
    let key = sx::vec(2);
    let max = sx::u64();
    let mode = DataMode::Custom {
        max_bitrate: DataRate::from_bps(max),
        max_group_call_receive_rate: DataRate::from_bps(7),
    };
    let r = d.to_v4(key.clone(), &c, mode);
    let asked = st(|s| s.to_v4.clone());
    match a {
        None => sx::check!(asked.is_empty() && r.is_err()),
        Some(true) => {
            sx::check!(asked == [("v4", desc(0), vec![c.enable_vp9_encode, c.enable_vp9_decode])])
        }
        Some(false) => sx::check!(
            asked == [("legacy", desc(0), vec![c.enable_vp9_encode && c.enable_vp9_decode])]
        ),
    }
    if a.is_none() || refuse {
        sx::check!(r.is_err());
        sx::check!(st(|s| s.v4_deleted) == 0);
        sx::cover!(refuse && a.is_some());
    } else {
        let v = r.unwrap();
        sx::check!(v.public_key == Some(key));
        sx::check!(v.ice_ufrag.unwrap().as_bytes() == texts[0]);
        let pwd = v.ice_pwd.unwrap();
        sx::check!(if null_text { pwd.is_empty() } else { pwd.as_bytes() == texts[1] });
        let proto = |l: &Vec<i32>| -> Vec<VideoCodec> {
            let t = |x: &i32| if *x == 8 { VideoCodecType::Vp8 } else { VideoCodecType::Vp9 };
            l.iter().map(|x| VideoCodec { r#type: Some(t(x) as i32) }).collect()
        };
        sx::check!(v.receive_video_codecs == proto(&lists[0]));
        sx::check!(v.encode_only_video_codecs == proto(&lists[1]));
        sx::check!(v.decode_only_video_codecs == proto(&lists[2]));
        sx::check!(v.max_bitrate_bps == Some(max));
        // what WebRTC handed out for the conversion goes back
        sx::check!(st(|s| s.v4_deleted) == 1);
        sx::cover!(null_list);
        sx::cover!(n == 2);
    }
    sx::check!(st(|s| s.deleted.is_empty()));
    drop(d);
    sx::check!(st(|s| s.deleted.clone()) == [desc(0)]);
}

fn codec() -> (VideoCodec, Option<i32>) {
    match sx::pick(0, 3) {
        0 => (VideoCodec { r#type: None }, None),
        1 => (VideoCodec { r#type: Some(VideoCodecType::Vp8 as i32) }, Some(8)),
        2 => (VideoCodec { r#type: Some(VideoCodecType::Vp9 as i32) }, Some(9)),
        _ => {
            // a codec of another version
            let t = sx::u32() as i32;
            sx::assume(t != VideoCodecType::Vp8 as i32 && t != VideoCodecType::Vp9 as i32);
            (VideoCodec { r#type: Some(t) }, None)
        }
    }
}
fn from_v4(which: usize, max: u64) {
    let c = config();
    let text = sx::ascii(2);
    let absent = sx::concb(sx::bool());
    let mut lists: [Vec<(VideoCodec, Option<i32>)>; 3] = Default::default();
    for k in 0..3 {
        let n = if k == which { sx::pick(0, max) } else { sx::pick(0, 1) };
        for _ in 0..n {
            lists[k].push(if k == which {
                codec()
            } else {
                (VideoCodec { r#type: Some(VideoCodecType::Vp9 as i32) }, Some(9))
            });
        }
    }
    let l = |k: usize| -> Vec<VideoCodec> { lists[k].iter().map(|x| x.0.clone()).collect() };
    let v = ConnectionParametersV4 {
        public_key: None,
        ice_ufrag: if absent { None } else { Some(text.clone()) },
        ice_pwd: Some("pw".to_string()),
        receive_video_codecs: l(0),
        encode_only_video_codecs: l(1),
        decode_only_video_codecs: l(2),
        max_bitrate_bps: None,
    };
    let offer = sx::concb(sx::bool());
    let local = sx::concb(sx::bool());
    let refuse = sx::concb(sx::bool());
    st(|s| s.refuse = refuse);
    let r = if offer {
        SessionDescription::offer_from_v4(&v, &c, local)
    } else {
        SessionDescription::answer_from_v4(&v, &c, local)
    };
    let nul = !absent && text.as_bytes().contains(&0);
    let made = st(|s| s.made.clone());
    if refuse || nul {
        sx::check!(r.is_err() && made.is_empty());
        sx::cover!(nul);
        return;
    }
    let d = r.unwrap();
    let asym = !lists[1].is_empty() && !lists[2].is_empty();
    let known = |k: usize| -> Vec<i32> { lists[k].iter().filter_map(|x| x.1).collect() };
    let mut want = Made {
        what: if asym { "v4" } else { "legacy" },
        offer,
        ufrag: if absent { vec![] } else { text.into_bytes() },
        pwd: b"pw".to_vec(),
        lists: [known(0), vec![], vec![]],
        flags: vec![c.enable_tcc_audio, c.enable_vp9_encode && c.enable_vp9_decode],
        ..Default::default()
    };
    if asym {
        want.lists = [known(0), known(1), known(2)];
        want.flags = vec![c.enable_tcc_audio, c.enable_vp9_encode, c.enable_vp9_decode, local];
    }
    sx::check!(made == [want]);
    sx::check!(d.supports_asymmetric == Some(asym));
    sx::cover!(asym);
    sx::cover!(!asym && !lists[2].is_empty());
    drop(d);
    sx::check!(st(|s| s.deleted.clone()) == [desc(0)]);
}
//@ harness bound="up_to_2_codecs_of_any_type,any_configuration,WebRTC_refusing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_from_v4() {
    from_v4(0, 2);
}
//@ harness bound="an_encoder_codec_of_any_type,any_configuration,WebRTC_refusing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_from_v4_encode() {
    from_v4(1, 1);
}
//@ harness bound="a_decoder_codec_of_any_type,any_configuration,WebRTC_refusing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_from_v4_decode() {
    from_v4(2, 1);
}

fn any_key() -> SrtpKey {
    let suite = [
        SrtpCryptoSuite::Aes128CmSha1,
        SrtpCryptoSuite::AeadAes128Gcm,
        SrtpCryptoSuite::AeadAes256Gcm,
    ][sx::pick(0, 2) as usize];
    let (k, s) = match suite {
        SrtpCryptoSuite::Aes128CmSha1 => (16, 14),
        SrtpCryptoSuite::AeadAes128Gcm => (16, 12),
        SrtpCryptoSuite::AeadAes256Gcm => (32, 12),
    };
    sx::check!(suite.key_size() == k && suite.salt_size() == s);
    SrtpKey { suite, key: sx::vec(k), salt: sx::vec(s) }
}
fn number(s: SrtpCryptoSuite) -> i32 {
    match s {
        SrtpCryptoSuite::Aes128CmSha1 => 1,
        SrtpCryptoSuite::AeadAes128Gcm => 7,
        SrtpCryptoSuite::AeadAes256Gcm => 8,
    }
}
//@ harness bound="any_SRTP_key,up_to_3_demux_ids,texts_of_2_characters,WebRTC_refusing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_group() {
    let key = any_key();
    let (ufrag, pwd) = (sx::ascii(2), sx::ascii(2));
    let n = sx::pick(0, 3);
    let ids: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
    let own = if sx::concb(sx::bool()) { Some(sx::u32()) } else { None };
    let local = own.is_none() || sx::concb(sx::bool());
    let refuse = sx::concb(sx::bool());
    st(|s| s.refuse = refuse);
    let r = if local {
        SessionDescription::local_for_group_call(&ufrag, &pwd, &key, own, &ids)
    } else {
        SessionDescription::remote_for_group_call(&ufrag, &pwd, &key, own.unwrap(), &ids)
    };
    let nul = ufrag.as_bytes().contains(&0) || pwd.as_bytes().contains(&0);
    let made = st(|s| s.made.clone());
    if refuse || nul {
        sx::check!(r.is_err() && made.is_empty());
        return;
    }
    let d = r.unwrap();
    sx::check!(d.supports_asymmetric.is_none());
    let want = Made {
        what: if local { "local" } else { "remote" },
        ufrag: ufrag.into_bytes(),
        pwd: pwd.into_bytes(),
        key: (number(key.suite), key.key, key.salt),
        demux: own.unwrap_or(0),
        demuxes: ids,
        ..Default::default()
    };
    sx::check!(made == [want]);
    sx::cover!(local);
    sx::cover!(!local);
}
//@ harness bound="any_SRTP_key,WebRTC_refusing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_key() {
    let key = any_key();
    let mut d = held(asym());
    let refuse = sx::concb(sx::bool());
    st(|s| s.refuse = refuse);
    let r = d.disable_dtls_and_set_srtp_key(&key);
    sx::check!(r.is_ok() != refuse);
    sx::check!(st(|s| s.keys.clone()) == [(desc(0), number(key.suite), key.key, key.salt)]);
    match d.to_sdp() {
        Ok(t) => sx::check!(!refuse && t == "v=0\r\n\u{fffd}"),
        Err(_) => sx::check!(refuse),
    }
    // given away, it is not deleted here
    let u = d.take_rffi();
    sx::check!(st(|s| s.deleted.is_empty()));
    sx::check!(u.borrow().as_ptr() as usize == desc(0));
    drop(u);
    sx::check!(st(|s| s.deleted.clone()) == [desc(0)]);
    sx::cover!(refuse);
}

type OnDesc = extern "C" fn(usize, usize);
type OnOk = extern "C" fn(usize);
type OnFail = extern "C" fn(usize, *const c_char, i32);

//@ harness bound="success,failure_or_a_null_observer,from_the_same_or_another_thread_in_every_schedule"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_create_observer() {
    sx::explore(true);
    let a = asym();
    let o = create_csd_observer(a);
    let (at, cb) = st(|s| s.observer[0]);
    sx::check!(at == &*o as *const _ as usize);
    sx::check!(rc::count(o.rffi().as_borrowed().as_ptr()) == 1);
    let (ok, fail) = unsafe { *(cb as *const (OnDesc, OnFail)) };
    let good = sx::concb(sx::bool());
    let code = sx::u32() as i32;
    let p = new_desc(Made { what: "made", ..Default::default() });
    // for nobody: the description is not kept
    if good && sx::concb(sx::bool()) {
        let q = new_desc(Made { what: "other", ..Default::default() });
        ok(0, q);
        sx::check!(st(|s| s.deleted.clone()) == [q]);
        sx::cover!();
        st(|s| s.deleted.clear());
    }
    let tell = move || {
        if good {
            ok(at, p);
        } else {
            fail(at, c"why".as_ptr(), code);
        }
    };
    let t = if sx::concb(sx::bool()) {
        Some(std::thread::spawn(tell))
    } else {
        tell();
        None
    };
    let r = o.get_result();
    sx::check!(r.is_ok() == good);
    if let Ok(d) = r {
        sx::check!(d.supports_asymmetric == a);
        sx::check!(st(|s| s.deleted.is_empty()));
        // only one can have it
        let again = o.get_result().unwrap();
        sx::check!(again.take_rffi().is_null());
        sx::check!(d.take_rffi().borrow().as_ptr() as usize == p);
        sx::check!(st(|s| s.deleted.clone()) == [p]);
        sx::cover!(t.is_some());
    }
    if let Some(t) = t {
        t.join().unwrap();
    }
    drop(o);
    sx::check!(rc::count((BASE + 8) as *const c_void) == 0);
    sx::check!(st(|s| s.deleted.len()) == good as usize);
}
//@ harness bound="success,failure_or_a_null_observer,from_the_same_or_another_thread_in_every_schedule"
#[unsafe(no_mangle)]
pub extern "C" fn hx_q_set_observer() {
    sx::explore(true);
    let o = create_ssd_observer();
    let (at, cb) = st(|s| s.observer[0]);
    sx::check!(at == &*o as *const _ as usize);
    let (ok, fail) = unsafe { *(cb as *const (OnOk, OnFail)) };
    let good = sx::concb(sx::bool());
    ok(0);
    fail(0, c"why".as_ptr(), 0);
    let tell = move || {
        if good {
            ok(at);
        } else {
            fail(at, c"why".as_ptr(), 5);
        }
    };
    let t = if sx::concb(sx::bool()) {
        Some(std::thread::spawn(tell))
    } else {
        tell();
        None
    };
    let r = o.get_result();
    sx::check!(r.is_ok() == good);
    if let Err(e) = r {
        sx::check!(e.to_string().contains("why"));
        sx::cover!();
    }
    sx::check!(o.get_result().is_ok() == good);
    if let Some(t) = t {
        t.join().unwrap();
    }
    drop(o);
    sx::check!(rc::count((BASE + 12) as *const c_void) == 0);
}
