//@ property=E01
// Call links: their keys as bytes and text, the names they hide, and the requests made with them.
use ringrtc::lite::{call_links::*, http};
use ringrtc::protobuf::group_call::sfu_to_device::peek_info as pb;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

const CRN: [u8; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
const DIGITS: &[u8; 16] = b"bcdfghkmnpqrstxz";

fn key(b: &[u8]) -> Option<CallLinkRootKey> {
    CallLinkRootKey::try_from(b).ok()
}
fn v0() -> CallLinkRootKey {
    key(&CRN).unwrap()
}
fn v1_bytes(version: u8, epoch: u32) -> Vec<u8> {
    [&CRN[..], &[version], &epoch.to_be_bytes()].concat()
}
fn v1(epoch: u32) -> CallLinkRootKey {
    key(&v1_bytes(1, epoch)).unwrap()
}
/// As made by the application, before the server gave it its epoch.
fn unborn() -> CallLinkRootKey {
    key(&v1_bytes(0x81, 0)).unwrap()
}
/// Two bytes made of one hexadecimal digit.
fn dull(pair: &[u8]) -> bool {
    pair[0] == pair[1] && pair[0] >> 4 == pair[0] & 15
}

/// Bytes are a key exactly when they have its form, and are kept.
//@ harness bound="any_bytes_of_length_0_15_16_17_20_21_22_25"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_bytes() {
    let n = [0usize, 15, 16, 17, 20, 21, 22, 25][sx::pick(0, 7) as usize];
    let b = sx::vec(n);
    let good = match n {
        16 => !b.chunks(2).any(dull),
        21 => b[16] & 0x7f == 1 && !b[..16].chunks(2).any(dull),
        _ => false,
    };
    match key(&b) {
        None => sx::check!(!good),
        Some(k) => {
            sx::check!(good);
            sx::check!(k.as_slice() == &b[..]);
            sx::check!(k.is_valid() == (n == 16 || b[16] & 0x80 == 0));
            sx::cover!(n == 16);
            sx::cover!(n == 21 && k.is_valid());
            sx::cover!(n == 21 && !k.is_valid());
        }
    }
}

/// The text of a key, by its definition.
fn text(b: &[u8]) -> String {
    let groups: &[usize] = if b.len() == 16 { &[2; 8] } else { &[4, 4, 4, 4, 1, 4] };
    let mut s = String::new();
    let mut at = 0;
    for g in groups {
        if at > 0 {
            s.push('-');
        }
        for c in &b[at..at + g] {
            s.push(DIGITS[(c >> 4) as usize] as char);
            s.push(DIGITS[(c & 15) as usize] as char);
        }
        at += g;
    }
    s
}
fn some_key_bytes() -> Vec<u8> {
    match sx::pick(0, 2) {
        0 => CRN.to_vec(),
        1 => v1_bytes(1, 0x0a0b_0c0d),
        _ => v1_bytes(0x81, 0),
    }
}

/// A key printed and read back is the same one.
//@ harness bound="both_versions,one_byte_of_the_first_middle_last_of_a_group_unknown"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_print() {
    let b = some_key_bytes();
    let at = [0, 5, 15, 16, 20];
    let n = if b.len() == 16 { 2 } else { 4 };
    print(b, at[sx::pick(0, n) as usize]);
}
//@ harness bound="both_versions,any_one_byte_of_it_unknown" tier=thorough secs=400
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_print_any() {
    let b = some_key_bytes();
    let at = sx::pick(0, b.len() as u64 - 1) as usize;
    print(b, at);
}
fn print(mut b: Vec<u8>, at: usize) {
    b[at] = sx::u8();
    let Some(k) = key(&b) else { return };
    let s = k.to_formatted_string();
    sx::check!(s.len() == if b.len() == 16 { 39 } else { 47 });
    sx::check!(s == format!("{k:?}"));
    let back = CallLinkRootKey::try_from(s.as_str());
    sx::check!(matches!(&back, Ok(r) if *r == k));
    sx::cover!(b.len() == 16);
    sx::cover!(b.len() == 21);
}
/// Texts near a key's: only what a key prints is one.
//@ harness bound="a_key_of_either_version_with_a_character_changed_added_or_missing_or_3_after_it"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_text() {
    let mut s = text(&some_key_bytes()).into_bytes();
    let n = s.len() as u64;
    match sx::pick(0, 3) {
        0 => {
            let at = sx::pick(0, n - 1) as usize;
            s[at] = sx::u8();
            sx::assume(s[at] < 0x80);
        }
        1 => {
            let at = sx::pick(0, n) as usize;
            let c = sx::u8();
            sx::assume(c < 0x80);
            s.insert(at, c);
        }
        2 => {
            s.remove(sx::pick(0, n - 1) as usize);
        }
        _ => {
            for _ in 0..sx::pick(1, 3) {
                let c = sx::u8();
                sx::assume(c < 0x80);
                s.push(c);
            }
        }
    }
    let s = unsafe { std::str::from_utf8_unchecked(&s) };
    if let Ok(k) = CallLinkRootKey::try_from(s) {
        sx::check!(k.to_formatted_string() == s);
        sx::cover!();
    } else {
        sx::cover!();
    }
}

struct Draws(u8);
impl rand::RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        unreachable!()
    }
    fn next_u64(&mut self) -> u64 {
        unreachable!()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0 += 1;
        if self.0 == 1 {
            sx::fill(d);
        } else {
            d.copy_from_slice(&CRN[..d.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for Draws {}

/// A new key looks random, is not yet valid, and becomes what the server says, with the same
/// room.
//@ harness bound="any_first_draw,any_epoch"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_generate() {
    let k = CallLinkRootKey::generate(Draws(0));
    let b = k.as_slice();
    sx::check!(b.len() == 21 && !k.is_valid());
    sx::check!(!b[..16].chunks(2).any(dull));
    sx::check!(key(b) == Some(k));
    sx::cover!(b[..16] == CRN);
    sx::cover!(b[..16] != CRN);
}

/// Who has a key reads what was written with it; who has another one, or altered text, does not.
//@ harness bound="names_of_0_to_4_or_19_20_21_51_52_unknown_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_name() {
    let n = [0usize, 1, 2, 3, 4, 19, 20, 21, 51, 52][sx::pick(0, 9) as usize];
    let name = sx::vec(n);
    let k = if sx::concb(sx::bool()) { v0() } else { v1(7) };
    let sealed = k.encrypt(&name, Draws(1));
    // the length tells only how many blocks of 32 it takes
    sx::check!(sealed.len() == (12 + n + 1).div_ceil(32) * 32 + 16);
    sx::check!(matches!(k.decrypt(&sealed), Ok(back) if back == name));
    let mut bad = sealed.clone();
    match sx::pick(0, 2) {
        0 => {
            let at = sx::pick(0, bad.len() as u64 - 1) as usize;
            let b = sx::u8();
            sx::assume(b != 0);
            bad[at] ^= b;
        }
        1 => bad.truncate(sx::pick(0, bad.len() as u64 - 1) as usize),
        _ => bad.push(sx::u8()),
    }
    sx::check!(k.decrypt(&bad).is_err());
    let mut other = CRN;
    other[3] ^= 1;
    sx::check!(key(&other).unwrap().decrypt(&sealed).is_err());
    sx::cover!(n == 0);
    sx::cover!(n == 52);
}

/// Opened text without the mark of its end is no name.
//@ harness bound="any_sealed_text_of_up_to_3_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_unmarked() {
    use aes_gcm_siv::aead::{AeadInPlace, KeyInit};
    let n = sx::pick(0, 3) as usize;
    let plain = sx::vec(n);
    let mut k = [0u8; 32];
    hkdf::Hkdf::<sha2::Sha256>::new(None, &CRN)
        .expand(b"20230501-Signal-CallLinkRootKey-AES", &mut k)
        .unwrap();
    let mut buf = plain.clone();
    let nonce = [9u8; 12];
    let tag = aes_gcm_siv::Aes256GcmSiv::new(&k.into())
        .encrypt_in_place_detached(&nonce.into(), &[], &mut buf)
        .unwrap();
    let sealed = [&nonce[..], &buf, &tag].concat();
    match v0().decrypt(&sealed) {
        Ok(name) => {
            let l = name.len();
            sx::check!(l < n && plain[l] == 0x80 && plain[..l] == name[..]);
            sx::check!(plain[l + 1..].iter().all(|b| *b != 0x80));
            sx::cover!();
        }
        Err(_) => {
            sx::check!(plain.iter().all(|b| *b != 0x80));
            sx::cover!(n > 0);
        }
    }
}

type Asked = Arc<Mutex<Vec<(http::Request, Option<http::ResponseCallback>)>>>;
struct Server(Asked);
impl http::Client for Server {
    fn send_request(&self, r: http::Request, cb: http::ResponseCallback) {
        self.0.lock().unwrap().push((r, Some(cb)));
    }
}
type Told = Arc<Mutex<Vec<Result<CallLinkState, u16>>>>;
fn base64(b: &[u8]) -> String {
    const D: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(D[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
const AUTH: &[u8] = b"\x01\xfe\x80 auth";
const PASS: &[u8] = &[0xff, 0xee, 3, 4];
const ZK: &[u8] = &[5, 6, 7];
fn header<'a>(h: &'a HashMap<String, String>, k: &str) -> Option<&'a str> {
    h.get(k).map(|s| s.as_str())
}
fn room() -> String {
    let mut r = [0u8; 32];
    hkdf::Hkdf::<sha2::Sha256>::new(None, &CRN)
        .expand(b"20230501-Signal-CallLinkRootKey-RoomId", &mut r)
        .unwrap();
    hex::encode(r)
}
fn response(status: u16, body: String) -> Option<http::Response> {
    Some(http::Response { status: status.into(), body: body.into_bytes() })
}

/// Each request says what was asked, with the key it is for; a key that is not ready, or is
/// already, asks nothing. The answer is told once, as it came.
//@ harness bound="4_requests,keys_of_3_kinds,epochs_and_answers_of_several_kinds,3_server_addresses"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_requests() {
    let asked: Asked = Default::default();
    let server = Server(asked.clone());
    let told: Told = Default::default();
    let (epoch, k) = match sx::pick(0, 3) {
        0 => (None, v0()),
        1 => (None, unborn()),
        n => {
            let e = if n == 2 { 0 } else { 0xfedc_ba98 };
            (Some(e), v1(e))
        }
    };
    let ready = k != unborn();
    let url = ["https://sfu", "https://sfu/", "https://sfu//"][sx::pick(0, 2) as usize];
    let t = told.clone();
    let cb = move |r: Result<CallLinkState, http::ResponseStatus>| {
        t.lock().unwrap().push(r.map_err(|s| s.code))
    };
    let op = sx::pick(0, 3);
    let deleted: Arc<Mutex<Vec<Result<(), u16>>>> = Default::default();
    let limits = match sx::pick(0, 2) {
        0 => None,
        1 => Some(CallLinkRestrictions::None),
        _ => Some(CallLinkRestrictions::AdminApproval),
    };
    let limits_name = match limits {
        None => None,
        Some(CallLinkRestrictions::None) => Some("none"),
        _ => Some("adminApproval"),
    };
    let sealed = k.encrypt(b"Name", Draws(1));
    match op {
        0 => read_call_link(&server, url, k, AUTH, Box::new(cb)),
        1 => create_call_link(&server, url, k, AUTH, PASS, ZK, limits.clone(), Box::new(cb)),
        2 => {
            let u = CallLinkUpdateRequest {
                admin_passkey: PASS,
                encrypted_name: limits.as_ref().map(|_| &sealed[..]),
                restrictions: limits.clone(),
                revoked: limits.as_ref().map(|l| *l == CallLinkRestrictions::None),
            };
            update_call_link(&server, url, k, AUTH, &u, Box::new(cb))
        }
        _ => {
            let d = deleted.clone();
            delete_call_link(
                &server,
                url,
                k,
                AUTH,
                &CallLinkDeleteRequest { admin_passkey: PASS },
                Box::new(move |r| d.lock().unwrap().push(r.map(|_| ()).map_err(|s| s.code))),
            )
        }
    }
    // only a link that does not exist yet is created, and only one that does is used
    if ready == (op == 1) {
        sx::check!(asked.lock().unwrap().is_empty());
        let want = if op == 1 { 705 } else { 704 };
        if op == 3 {
            sx::check!(*deleted.lock().unwrap() == [Err(want)]);
        } else {
            sx::check!(*told.lock().unwrap() == [Err(want)]);
        }
        sx::cover!(op == 1);
        sx::cover!(op == 2);
        return;
    }
    let cb = {
        let mut a = asked.lock().unwrap();
        sx::check!(a.len() == 1);
        let (r, cb) = &mut a[0];
        sx::check!(r.url == "https://sfu/v1/call-link");
        let method = [http::Method::Get, http::Method::Put, http::Method::Put, http::Method::Delete];
        sx::check!(r.method == method[op as usize]);
        let auth = if op == 1 { "Bearer create." } else { "Bearer auth." };
        sx::check!(header(&r.headers, "Authorization") == Some(&(auth.to_string() + &base64(AUTH))));
        sx::check!(header(&r.headers, "Content-Type") == Some("application/json"));
        sx::check!(header(&r.headers, "X-Room-Id") == Some(&room()));
        let e = epoch.map(|e: u32| e.to_string());
        sx::check!(header(&r.headers, "X-Epoch") == e.as_deref());
        sx::check!(r.headers.len() == if e.is_some() { 4 } else { 3 });
        if op == 0 {
            sx::check!(r.body.is_none());
        } else {
            let j: serde_json::Value = serde_json::from_slice(r.body.as_ref().unwrap()).unwrap();
            let o = j.as_object().unwrap();
            let s = |k: &str| o.get(k).map(|v| v.as_str().unwrap());
            sx::check!(s("adminPasskey") == Some(&base64(PASS)));
            let mut n = 1;
            if op == 1 {
                sx::check!(s("zkparams") == Some(&base64(ZK)));
                n += 1;
            }
            if op != 3 {
                sx::check!(s("restrictions") == limits_name);
                n += limits.is_some() as usize;
            }
            if op == 2 && limits.is_some() {
                sx::check!(s("name") == Some(&base64(&sealed)));
                let revoked = o.get("revoked").and_then(|r| r.as_bool());
                sx::check!(revoked == Some(limits == Some(CallLinkRestrictions::None)));
                n += 2;
            }
            sx::check!(o.len() == n);
        }
        cb.take().unwrap()
    };
    let answer = sx::pick(0, 4);
    // the name as the link's key will be once the server has answered
    let e = if sx::concb(sx::bool()) { Some(77u32) } else { None };
    let then = if op == 1 { e.map_or(v0(), v1) } else { k };
    let kind = sx::pick(0, 2);
    let name = match kind {
        0 => "".into(),
        1 => base64(&then.encrypt(b"Name", Draws(1))),
        _ => base64(&sealed[1..]),
    };
    let body = format!(
        "{{\"name\":\"{name}\",\"restrictions\":\"{}\",\"revoked\":{},\"expiration\":86400,\"epoch\":{}}}",
        limits_name.unwrap_or("somethingNew"),
        answer == 0,
        e.map_or("null".to_string(), |e| e.to_string()),
    );
    let want_error = match answer {
        0 | 1 => None,
        2 => Some(602),
        3 => Some(404),
        _ => Some(702),
    };
    cb(match answer {
        0 | 1 => response(200, body),
        2 => None,
        3 => response(404, body),
        _ => response(200, body[..body.len() - 1].to_string()),
    });
    if op == 3 {
        let d = deleted.lock().unwrap();
        sx::check!(*d == [want_error.map_or(Ok(()), Err)]);
        return;
    }
    let t = told.lock().unwrap();
    sx::check!(t.len() == 1);
    match (&t[0], want_error) {
        (Err(code), Some(want)) => sx::check!(*code == want),
        (Ok(s), None) => {
            let good = kind == 1;
            sx::check!(s.name == if good { "Name" } else { "" });
            sx::check!(s.restrictions == limits.unwrap_or(CallLinkRestrictions::Unknown));
            sx::check!(s.revoked == (answer == 0));
            sx::check!(s.expiration == SystemTime::UNIX_EPOCH + Duration::from_secs(86400));
            sx::check!(s.root_key == then);
            sx::cover!(op == 1 && e.is_none());
            sx::cover!(op == 1 && e.is_some());
            sx::cover!(good && op == 0);
            sx::cover!(op == 2);
        }
        _ => sx::check!(false),
    }
}

/// What the SFU says of a link during a call is taken only when it is whole.
//@ harness bound="any_fields_missing,any_time"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_state() {
    let has = |_: ()| sx::concb(sx::bool());
    let (name, limits, revoked, exp) = (has(()), has(()), has(()), has(()));
    let secs = sx::u64();
    let r = sx::bool();
    let admin = sx::concb(sx::bool());
    let l = if admin { pb::CallLinkRestrictions::AdminApproval } else { pb::CallLinkRestrictions::None };
    let s = pb::CallLinkState {
        encrypted_name: name.then(|| base64(&v0().encrypt("Näme".as_bytes(), Draws(1)))),
        restrictions: limits.then_some(l as i32),
        revoked: revoked.then_some(r),
        expiration_unix_timestamp: exp.then_some(secs),
        ..Default::default()
    };
    match CallLinkResponse::try_from(&s) {
        Err(_) => {
            sx::check!(!(name && limits && revoked && exp));
            sx::cover!();
        }
        Ok(c) => {
            sx::check!(name && limits && revoked && exp);
            let s = CallLinkState::from_serialized(c, &v0());
            sx::check!(s.name == "Näme");
            sx::check!(s.revoked == r);
            sx::check!((s.restrictions == CallLinkRestrictions::AdminApproval) == admin);
            sx::check!((s.restrictions == CallLinkRestrictions::None) == !admin);
            // a time that is none is as good as any other
            let t = SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(secs));
            sx::check!(t.is_none_or(|t| s.expiration == t));
            sx::check!(s.root_key == v0());
            sx::cover!(t.is_some());
            sx::cover!(t.is_none());
        }
    }
}

use ringrtc::lite::sfu::MemberResolver;

fn member(k: &[u8], id: u8) -> Vec<u8> {
    let p = zkgroup::call_links::CallLinkSecretParams::derive_from_root_key(k);
    bincode::serialize(&p.encrypt_uid([id; 16])).unwrap()
}

/// Who is in a link's call is told by its key alone, however many have been asked about.
//@ harness bound="0_16_17_18_others_before,any_2_of_6_ids_each_as_text_or_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_members() {
    let k = if sx::concb(sx::bool()) { v0() } else { v1(3) };
    let r = CallLinkMemberResolver::from(&k);
    let ask = |b: &[u8], bytes: bool| {
        if bytes { r.resolve_bytes(b) } else { r.resolve(&hex::encode(b)) }
    };
    let bytes = sx::concb(sx::bool());
    for i in 0..[0u8, 16, 17, 18][sx::pick(0, 3) as usize] {
        sx::check!(ask(&member(&CRN, 100 + i), bytes) == Some(vec![100 + i; 16]));
    }
    for _ in 0..2 {
        let bytes = sx::concb(sx::bool());
        let (b, want) = match sx::pick(0, 5) {
            0 => (member(&CRN, 1), Some(vec![1; 16])),
            1 => (member(&CRN, 100), Some(vec![100; 16])),
            2 => (member(&CRN, 116), Some(vec![116; 16])),
            3 => (member(&[9; 16], 1), None),
            4 => (member(&CRN, 1)[..9].to_vec(), None),
            _ => (vec![], None),
        };
        sx::check!(ask(&b, bytes) == want);
        sx::cover!(want.is_none());
        sx::cover!(want.is_some());
    }
    sx::check!(r.resolve("no hex").is_none());
    sx::check!(r.resolve("0").is_none());
}
