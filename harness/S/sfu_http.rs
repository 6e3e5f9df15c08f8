//@ property=E03
// Asking the SFU over HTTP who is in a call, and to join it.
use ringrtc::lite::{call_links::*, http, sfu::*};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

const CRN: [u8; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

type Asked = Arc<Mutex<Vec<(http::Request, http::ResponseCallback)>>>;
struct Server(Asked);
impl http::Client for Server {
    fn send_request(&self, r: http::Request, cb: http::ResponseCallback) {
        self.0.lock().unwrap().push((r, cb));
    }
}
fn base64(b: &[u8]) -> String {
    const D: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(D[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn header<'a>(h: &'a HashMap<String, String>, k: &str) -> Option<&'a str> {
    h.get(k).map(|s| s.as_str())
}
fn room() -> String {
    let mut r = [0u8; 32];
    hkdf::Hkdf::<sha2::Sha256>::new(None, &CRN)
        .expand(b"20230501-Signal-CallLinkRootKey-RoomId", &mut r)
        .unwrap();
    hex::encode(r)
}
fn user(n: u8) -> UserId {
    vec![n; 2]
}
/// What the SFU calls the member.
fn opaque(n: u8) -> String {
    use sha2::Digest;
    hex::encode(sha2::Sha256::digest([n; 3]))
}
/// Of users 1 and 2.
fn members() -> Arc<MemberMap> {
    let of = |n| GroupMember { user_id: user(n), member_id: vec![n; 3] };
    Arc::new(MemberMap::new(&[of(1), of(2)]))
}
fn who(n: u8) -> Option<UserId> {
    (1..=2).contains(&n).then(|| user(n))
}
/// The key of the call's link if it has one: none, of a link of the first kind, of one that has an epoch, or
/// of one that does not exist.
fn link() -> (Option<CallLinkRootKey>, Option<String>, bool) {
    let v1 = |v: u8| [&CRN[..], &[v], &0xfedc_ba98u32.to_be_bytes()].concat();
    let k = |b: &[u8]| Some(CallLinkRootKey::try_from(b).unwrap());
    match sx::pick(0, 3) {
        0 => (None, None, true),
        1 => (k(&CRN), None, true),
        2 => (k(&v1(1)), Some(0xfedc_ba98u32.to_string()), true),
        _ => (k(&v1(0x81)), None, false),
    }
}
fn same_headers(
    r: &http::Request,
    auth: &str,
    key: &Option<CallLinkRootKey>,
    epoch: &Option<String>,
    given: &Option<String>,
    json: bool,
) {
    let room = if key.is_some() { Some(room()) } else { given.clone() };
    sx::check!(header(&r.headers, "Authorization") == Some(auth));
    sx::check!(header(&r.headers, "X-Room-Id") == room.as_deref());
    sx::check!(header(&r.headers, "X-Epoch") == epoch.as_deref());
    let rest = 1 + room.is_some() as usize + epoch.is_some() as usize;
    // to send a type of nothing does no harm
    let content = header(&r.headers, "Content-Type");
    sx::check!(content == Some("application/json") || !json && content.is_none());
    sx::check!(r.headers.len() == rest + content.is_some() as usize);
    sx::check!(r.url == "https://sfu/v2/conference/participants");
}
fn sfu_url() -> &'static str {
    ["https://sfu", "https://sfu//"][sx::pick(0, 1) as usize]
}

struct Draws(u8);
impl rand::RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 as u64
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        b.fill(self.0)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl rand::CryptoRng for Draws {}

/// Two unknown digits.
fn number() -> (String, u32) {
    let a = sx::range(b'1' as u64, b'9' as u64) as u8;
    let b = sx::range(b'0' as u64, b'9' as u64) as u8;
    (String::from_utf8(vec![a, b]).unwrap(), (a - b'0') as u32 * 10 + (b - b'0') as u32)
}
/// Devices in what the SFU says, and of which users: 0 is somebody unsaid, 3 somebody unknown.
fn devices(most: u64, any: u64) -> (String, Vec<(u32, u8)>) {
    let mut json = vec![];
    let mut all = vec![];
    for i in 0..sx::pick(0, most) {
        let (text, n) = if i < any { number() } else { ("4294967280".into(), 4294967280) };
        let u = sx::pick(0, 3) as u8;
        json.push(match u {
            0 => format!("{{\"demuxId\":{text}}}"),
            u => format!("{{\"opaqueUserId\":\"{}\",\"demuxId\":{text}}}", opaque(u)),
        });
        all.push((n, u));
    }
    (format!("[{}]", json.join(",")), all)
}
fn same_devices(got: &[PeekDeviceInfo], want: &[(u32, u8)]) {
    sx::check!(got.len() == want.len());
    for (g, (n, u)) in got.iter().zip(want) {
        sx::check!(g.demux_id == *n && g.user_id == who(*u));
    }
}

fn peeked() -> (Arc<Mutex<Vec<PeekResult>>>, PeekResultCallback) {
    let told: Arc<Mutex<Vec<PeekResult>>> = Default::default();
    let t = told.clone();
    (told, Box::new(move |r| t.lock().unwrap().push(r)))
}

/// What is asked is what the caller gave; a link that does not exist is not asked about.
//@ harness bound="4_kinds_of_link,a_room_given_or_not,2_server_addresses"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_asked() {
    let asked: Asked = Default::default();
    let server = Server(asked.clone());
    let (key, epoch, exists) = link();
    let given = sx::concb(sx::bool()).then(|| "room".to_string());
    let (told, cb) = peeked();
    let joining = sx::concb(sx::bool());
    let pass: Option<&[u8]> = if sx::concb(sx::bool()) { Some(&[0xfe, 2, 3]) } else { None };
    let joined: Arc<Mutex<Vec<u16>>> = Default::default();
    if joining {
        let j = joined.clone();
        join(
            &server,
            sfu_url(),
            given.clone(),
            key,
            "auth".into(),
            pass,
            "ufrag",
            "p\"wd",
            &[0xab; 32],
            &[1, 0x23],
            members(),
            Box::new(move |r| j.lock().unwrap().push(r.unwrap_err().code)),
        );
    } else {
        let args = PeekArgs {
            room_id_header: given.clone(),
            auth_header: "auth".into(),
            member_resolver: members(),
            call_link_root_key: key,
        };
        peek(&server, sfu_url(), args, cb);
    }
    let a = asked.lock().unwrap();
    if !exists {
        sx::check!(a.is_empty());
        if joining {
            sx::check!(*joined.lock().unwrap() == [704]);
        } else {
            let t = told.lock().unwrap();
            sx::check!(t.len() == 1 && t[0].as_ref().is_err_and(|e| e.code == 704));
        }
        sx::cover!(joining);
        sx::cover!(!joining);
        return;
    }
    sx::check!(a.len() == 1 && joined.lock().unwrap().is_empty() && told.lock().unwrap().is_empty());
    let r = &a[0].0;
    same_headers(r, "auth", &key, &epoch, &given, joining);
    sx::check!(r.method == if joining { http::Method::Put } else { http::Method::Get });
    if !joining {
        sx::check!(r.body.is_none());
        return;
    }
    let j: serde_json::Value = serde_json::from_slice(r.body.as_ref().unwrap()).unwrap();
    let s = |k: &str| j.get(k).map(|v| v.as_str().unwrap());
    sx::check!(s("adminPasskey") == pass.map(base64).as_deref());
    sx::check!(s("iceUfrag") == Some("ufrag") && s("icePwd") == Some("p\"wd"));
    sx::check!(s("dhePublicKey") == Some(&"ab".repeat(32)));
    sx::check!(s("hkdfExtraInfo") == Some("0123"));
    sx::check!(j.as_object().unwrap().len() == 4 + pass.is_some() as usize);
    sx::cover!(pass.is_some());
}

/// What the SFU says of a call is told once, as it was said.
//@ harness bound="up_to_2_devices_and_1_pending_of_4_kinds_of_users,any_2_digit_id_or_most"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_peeked() {
    peek_answer(2, 1);
}
//@ harness bound="up_to_2_pending_of_4_kinds_of_users,any_2_digit_ids"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_peeked_pending() {
    peek_answer(0, 2);
}
//@ harness bound="up_to_1_device_and_3_pending_of_4_kinds_of_users" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_peeked_more() {
    peek_answer(1, 3);
}
fn peek_answer(most: u64, most_pending: u64) {
    let asked: Asked = Default::default();
    let server = Server(asked.clone());
    let (told, cb) = peeked();
    let key = CallLinkRootKey::try_from(&CRN[..]).unwrap();
    let linked = sx::concb(sx::bool());
    let args = PeekArgs {
        room_id_header: None,
        auth_header: "auth".into(),
        member_resolver: members(),
        call_link_root_key: linked.then_some(key),
    };
    peek(&server, "https://sfu", args, cb);
    let cb = asked.lock().unwrap().pop().unwrap().1;
    let (here_json, here) = devices(most, 1);
    let (wait_json, wait) = devices(most_pending, if most == 0 { 2 } else { 0 });
    let mut fields = vec![format!("\"participants\":{here_json}")];
    if !wait.is_empty() {
        fields.push(format!("\"pendingClients\":{wait_json}"));
    }
    // the rest all there or not
    let creator = sx::pick(0, 3) as u8;
    let (max_text, max) = if creator == 1 && here.is_empty() { number() } else { ("16".into(), 16) };
    if creator > 0 {
        fields.push(format!("\"creator\":\"{}\"", opaque(creator)));
        fields.push("\"conferenceId\":\"era\"".into());
        fields.push(format!("\"maxDevices\":{max_text}"));
        let name = base64(&key.encrypt(b"Name", Draws(1)));
        fields.push(format!(
            "\"callLinkState\":{{\"name\":\"{name}\",\"restrictions\":\"none\",\"revoked\":true,\
             \"expiration\":86400,\"epoch\":null}}"
        ));
    }
    cb(Some(http::Response {
        status: 200.into(),
        body: format!("{{{}}}", fields.join(",")).into_bytes(),
    }));
    let t = told.lock().unwrap();
    sx::check!(t.len() == 1);
    let Ok(p) = &t[0] else {
        sx::check!(false);
        return;
    };
    same_devices(&p.devices, &here);
    same_devices(&p.pending_devices, &wait);
    sx::check!(p.device_count_including_pending_devices() == here.len() + wait.len());
    let users: HashSet<_> = here.iter().filter_map(|(_, u)| who(*u)).collect();
    sx::check!(p.unique_users() == users.iter().collect());
    let mut order: Vec<UserId> = vec![];
    for u in wait.iter().filter_map(|(_, u)| who(*u)) {
        if !order.contains(&u) {
            order.push(u);
        }
    }
    sx::check!(p.unique_pending_users() == order.iter().collect::<Vec<_>>());
    sx::check!(p.creator == who(creator));
    sx::check!(p.era_id.as_deref() == (creator > 0).then_some("era"));
    sx::check!(p.max_devices == (creator > 0).then_some(max));
    match &p.call_link_state {
        None => sx::check!(creator == 0 || !linked),
        Some(s) => {
            sx::check!(creator > 0 && linked);
            sx::check!(s.name == "Name" && s.revoked && s.root_key == key);
            sx::check!(s.restrictions == CallLinkRestrictions::None);
            sx::check!(s.expiration == SystemTime::UNIX_EPOCH + Duration::from_secs(86400));
            sx::cover!();
        }
    }
    sx::cover!(here.len() == 2 && users.len() == 1);
    sx::cover!(wait.len() == 2 && order.len() == 1);
    std::mem::forget(users);
}

/// No call is an empty call; the other failures are told for what they are.
//@ harness bound="any_status,7_kinds_of_bodies"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_refused() {
    let asked: Asked = Default::default();
    let server = Server(asked.clone());
    let (told, cb) = peeked();
    let args = PeekArgs {
        room_id_header: None,
        auth_header: "auth".into(),
        member_resolver: members(),
        call_link_root_key: None,
    };
    peek(&server, "https://sfu", args, cb);
    let cb = asked.lock().unwrap().pop().unwrap().1;
    let status = sx::u16();
    let kind = sx::pick(0, 7);
    let body: &[u8] = match kind {
        0 => b"",
        1 => b"{\"reason\":\"expired\"}",
        2 => b"{\"reason\":\"invalid\"}",
        3 => b"{\"reason\":\"full\"}",
        4 => b"{\"reason\":",
        5 => b"{\"participants\":[{\"opaqueUserId\":\"a\"}]}",
        6 => b"{\"participants\":[]}",
        _ => b"\xff{}",
    };
    if sx::concb(sx::bool()) {
        cb(None);
        let t = told.lock().unwrap();
        sx::check!(t.len() == 1 && t[0].as_ref().is_err_and(|e| e.code == 602));
        return;
    }
    cb(Some(http::Response { status: status.into(), body: body.into() }));
    let t = told.lock().unwrap();
    sx::check!(t.len() == 1);
    let success = (200..300).contains(&status);
    match &t[0] {
        Ok(p) => {
            sx::check!(success && kind == 6 || status == 404 && kind == 0);
            sx::check!(p.devices.is_empty() && p.pending_devices.is_empty());
            sx::check!(p.era_id.is_none() && p.creator.is_none() && p.max_devices.is_none());
            sx::cover!(status == 404);
            sx::cover!(success);
        }
        Err(e) if success => {
            sx::check!(kind != 6 && (e.code == 702 || e.code == 701 && kind == 7));
            sx::cover!();
        }
        Err(e) => {
            sx::check!(kind != 0 || status != 404);
            let want = match kind {
                1 if status == 404 => 703,
                2 if status == 404 => 704,
                _ => status,
            };
            sx::check!(e.code == want);
            sx::cover!(want == 703);
            sx::cover!(want == 413);
        }
    }
}

/// The answer to a request to join is told once, as it was said.
//@ harness bound="any_2_digit_ports,up_to_2_addresses_or_4_creators_and_states_or_each_missing_or_spoilt_field"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_joined() {
    let asked: Asked = Default::default();
    let server = Server(asked.clone());
    let told: Arc<Mutex<Vec<JoinResult>>> = Default::default();
    let t = told.clone();
    join(
        &server,
        "https://sfu",
        None,
        None,
        "auth".into(),
        None,
        "u",
        "p",
        &[0xab; 32],
        &[],
        members(),
        Box::new(move |r| t.lock().unwrap().push(r)),
    );
    let cb = asked.lock().unwrap().pop().unwrap().1;
    // what is varied in this run
    let part = sx::pick(0, 2);
    let vary = |which: u64, most: u64| if part == which { sx::pick(0, most) as usize } else { most as usize };
    let port = |n: u32| if part == 0 { number() } else { (n.to_string(), n) };
    let (udp, udp_port) = port(10);
    let (tcp, tcp_port) = port(443);
    let (tls, tls_port) = port(65535);
    let with_tls = vary(0, 1) == 1;
    let ips = [&[][..], &["192.0.2.7"], &["192.0.2.7", "2001:db8::1"]][vary(0, 2)];
    let creator = vary(1, 3) as u8;
    let status = ["ACTIVE", "PENDING", "BLOCKED", "active"][vary(1, 3)];
    let ips_json: Vec<String> = ips.iter().map(|i| format!("\"{i}\"")).collect();
    let mut fields = vec![
        ("demuxId", "4294967280".to_string()),
        ("ips", format!("[{}]", ips_json.join(","))),
        ("port", udp),
        ("portTcp", tcp),
        ("iceUfrag", "\"uf\"".into()),
        ("icePwd", "\"pw\"".into()),
        ("dhePublicKey", format!("\"{}\"", "0f".repeat(32))),
        ("conferenceId", "\"era\"".into()),
        ("clientStatus", format!("\"{status}\"")),
    ];
    // one that cannot be done without is missing, or is not what it should be
    let spoilt = match if part == 2 { sx::pick(1, 2) } else { 0 } {
        0 => None,
        n => {
            let i = sx::pick(0, fields.len() as u64 - 1) as usize;
            if n == 1 {
                fields.remove(i);
            } else {
                let bad = match fields[i].0 {
                    "dhePublicKey" => format!("\"{}\"", "0f".repeat(31)),
                    "port" | "portTcp" => "65536".into(),
                    "demuxId" => "4294967296".into(),
                    "ips" => "[\"192.0.2.256\"]".into(),
                    _ => "1".into(),
                };
                fields[i].1 = bad;
            }
            Some(i)
        }
    };
    if with_tls {
        fields.push(("portTls", tls));
        fields.push(("hostname", "\"host\"".into()));
    }
    if creator > 0 {
        fields.push(("callCreator", format!("\"{}\"", opaque(creator))));
    }
    let json: Vec<String> = fields.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let code = [200, 413][sx::pick(0, 1) as usize];
    cb(Some(http::Response {
        status: code.into(),
        body: format!("{{{}}}", json.join(",")).into_bytes(),
    }));
    let t = told.lock().unwrap();
    sx::check!(t.len() == 1);
    match &t[0] {
        Err(e) => {
            sx::check!(code == 413 || spoilt.is_some());
            sx::check!(e.code == if code == 413 { 413 } else { 702 });
            sx::cover!(code == 200);
        }
        Ok(j) => {
            sx::check!(code == 200 && spoilt.is_none());
            let at = |port: u32| -> Vec<SocketAddr> {
                ips.iter().map(|i| SocketAddr::new(i.parse().unwrap(), port as u16)).collect()
            };
            sx::check!(j.client_demux_id == 4294967280);
            sx::check!(j.server_udp_addresses == at(udp_port));
            sx::check!(j.server_tcp_addresses == at(tcp_port));
            sx::check!(j.server_tls_addresses == if with_tls { at(tls_port) } else { vec![] });
            sx::check!(j.server_hostname.as_deref() == with_tls.then_some("host"));
            sx::check!(j.server_ice_ufrag == "uf" && j.server_ice_pwd == "pw" && j.era_id == "era");
            sx::check!(j.server_dhe_pub_key == [15; 32] && j.call_creator == who(creator));
            let want = match status {
                "ACTIVE" => ClientStatus::Active,
                "BLOCKED" => ClientStatus::Blocked,
                // not let in by what is not known
                _ => ClientStatus::Pending,
            };
            sx::check!(j.client_status == want);
            sx::cover!(status == "active");
            sx::cover!(creator == 3);
        }
    }
}

/// A proof of membership is the authorization, with what it begins with as the name.
//@ harness bound="any_proof_of_up_to_4_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_proof() {
    let n = sx::pick(0, 4) as usize;
    let p = sx::vec(n);
    match auth_header_from_membership_proof(&p) {
        None => sx::check!(std::str::from_utf8(&p).is_err()),
        Some(h) => {
            sx::check!(std::str::from_utf8(&p).is_ok());
            let name = p.iter().position(|b| *b == b':').unwrap_or(n);
            let all = [&p[..name], b":", &p].concat();
            sx::check!(h.strip_prefix("Basic ") == Some(&base64(&all)));
            sx::cover!(name == 1 && n == 4);
        }
    }
}

/// Members are found by the hash of what the group calls them, as text or bytes.
//@ harness bound="3_members,any_of_them_or_another"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_map() {
    let m = members();
    let n = sx::pick(1, 3) as u8;
    let text = opaque(n);
    sx::check!(sha256_as_hexstring(&[n; 3]) == text);
    sx::check!(m.resolve(&text) == who(n));
    sx::check!(m.resolve_bytes(&hex::decode(&text).unwrap()) == who(n));
    sx::check!(m.resolve("").is_none() && m.resolve(&text[1..]).is_none());
    sx::check!(m.resolve(&(text.clone() + "0")).is_none() && m.resolve_bytes(text.as_bytes()).is_none());
    // names of links are read with the key of the link, if there is one
    let key = CallLinkRootKey::try_from(&CRN[..]).unwrap();
    let name = base64(&key.encrypt(b"Name", Draws(1)));
    let keyed = sx::concb(sx::bool());
    let r = ObfuscatedResolver::new(m, keyed.then_some(key), None);
    sx::check!(r.resolve(&text) == who(n));
    sx::check!(r.resolve_call_link_name(&name).as_deref() == keyed.then_some("Name"));
    sx::check!(r.resolve_call_link_name("x").as_deref() == keyed.then_some(""));
    sx::cover!(keyed);
}
