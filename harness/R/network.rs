//@ property=N01
// What crosses the boundary to WebRTC's network code: addresses, RTP headers, packets.
use ringrtc::webrtc;
use ringrtc::webrtc::injectable_network::{
    InjectableNetwork, Packet, PacketSender, RffiInjectableNetwork,
};
use ringrtc::webrtc::network::{NetworkInterfaceType, RffiIp, RffiIpPort};
use ringrtc::webrtc::peer_connection_factory::RffiPeerConnectionFactoryOwner;
use ringrtc::webrtc::ptr;
use ringrtc::webrtc::rtp;
use ringrtc::webrtc::rtp_observer::{RtpObserver, RtpObserverTrait};
use std::cell::RefCell;
use std::ffi::{CStr, c_char, c_void};
use std::net::{IpAddr, SocketAddr};
use std::sync::{Arc, Mutex};

fn any_ip() -> IpAddr {
    if sx::concb(sx::bool()) {
        IpAddr::from(sx::bytes::<4>())
    } else {
        IpAddr::from(sx::bytes::<16>())
    }
}
fn any_addr() -> SocketAddr {
    SocketAddr::new(any_ip(), sx::u16())
}
/// As WebRTC lays it out: whether v6, 16 bytes (the first 4 for v4), the port.
#[repr(C)]
#[derive(Clone, Copy)]
struct RawIp {
    v6: u8,
    address: [u8; 16],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawIpPort {
    ip: RawIp,
    port: u16,
}
fn raw_ip(ip: RffiIp) -> RawIp {
    sx::check!(size_of::<RffiIp>() == size_of::<RawIp>());
    unsafe { std::mem::transmute_copy(&ip) }
}
fn raw(a: RffiIpPort) -> RawIpPort {
    sx::check!(size_of::<RffiIpPort>() == size_of::<RawIpPort>());
    unsafe { std::mem::transmute_copy(&a) }
}
fn same_ip(r: &RawIp, ip: &IpAddr) -> bool {
    match ip {
        IpAddr::V4(a) => r.v6 == 0 && r.address[..4] == a.octets(),
        IpAddr::V6(a) => r.v6 == 1 && r.address == a.octets(),
    }
}
fn same(r: &RawIpPort, a: &SocketAddr) -> bool {
    same_ip(&r.ip, &a.ip()) && r.port == a.port()
}
fn from_raw(r: RawIpPort) -> RffiIpPort {
    unsafe { std::mem::transmute_copy(&r) }
}
fn any_raw() -> (RawIpPort, SocketAddr) {
    let a = any_addr();
    // what lies beyond a v4 address has no meaning
    let mut address = sx::bytes::<16>();
    let v6 = match a.ip() {
        IpAddr::V4(x) => {
            address[..4].copy_from_slice(&x.octets());
            0
        }
        IpAddr::V6(x) => {
            address = x.octets();
            1
        }
    };
    let r = RawIpPort {
        ip: RawIp { v6, address },
        port: a.port(),
    };
    (r, a)
}

//@ harness bound="any_IPv4_or_IPv6_address_and_port"
#[unsafe(no_mangle)]
pub extern "C" fn hx_n_addr() {
    let a = any_addr();
    let r = RffiIpPort::from(a);
    sx::check!(same(&raw(r), &a));
    sx::check!(r.socket_addr() == a);
    sx::check!(SocketAddr::from(&r) == a);
    let i = RffiIp::from(a.ip());
    sx::check!(same_ip(&raw_ip(i), &a.ip()));
    sx::check!(i.ip() == a.ip());
    let (r, a) = any_raw();
    sx::check!(from_raw(r).socket_addr() == a);
    sx::cover!(a.is_ipv4());
    sx::cover!(a.is_ipv6());
}

//@ harness bound="up_to_3_headers_after_the_first,any_field"
#[unsafe(no_mangle)]
pub extern "C" fn hx_n_header() {
    let any = || rtp::Header {
        pt: sx::u8(),
        seqnum: sx::u16(),
        timestamp: sx::u32(),
        ssrc: sx::u32(),
    };
    let first = any();
    let n = sx::pick(0, 3);
    let rest: Vec<_> = (0..n).map(|_| any()).collect();
    let (mut seqnum, mut timestamp) = (first.seqnum, first.timestamp);
    let mut skipped = false;
    for h in &rest {
        let ours = h.pt == first.pt && h.ssrc == first.ssrc;
        if ours {
            seqnum = h.seqnum;
            timestamp = h.timestamp;
        }
        skipped |= !ours;
    }
    let mut h = first.clone();
    h.extend(rest);
    sx::check!(h.pt == first.pt && h.ssrc == first.ssrc);
    sx::check!(h.seqnum == seqnum && h.timestamp == timestamp);
    sx::cover!(skipped);
    sx::cover!(n == 3 && !skipped);
}

thread_local! {
    static CALLBACKS: RefCell<Option<(*const c_void, RtpCb)>> = const { RefCell::new(None) };
    static NET: RefCell<Net> = RefCell::new(Net::default());
}
type RtpCb = extern "C" fn(*const c_void, u8, u16, u32, u32, *const u8, usize);

#[unsafe(no_mangle)]
pub extern "C" fn Rust_createRtpObserver(
    observer: *const c_void,
    callbacks: *const c_void,
) -> *const c_void {
    if REFUSE.with(|r| *r.borrow()) {
        return std::ptr::null();
    }
    // one function pointer, valid only during this call
    let cb = unsafe { *(callbacks as *const RtpCb) };
    CALLBACKS.with(|c| *c.borrow_mut() = Some((observer, cb)));
    0x1000 as *const c_void
}
thread_local! {
    static REFUSE: RefCell<bool> = const { RefCell::new(false) };
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_deleteRtpObserver(_: *const c_void) {}

#[derive(Default)]
struct Rtp(Vec<(rtp::Header, Vec<u8>)>);
impl RtpObserverTrait for Rtp {
    fn handle_rtp_received(&mut self, header: rtp::Header, data: &[u8]) {
        self.0.push((header, data.to_vec()));
    }
}

//@ harness bound="2_callbacks,any_header,payload_up_to_3_bytes_or_null,observer_or_null"
#[unsafe(no_mangle)]
pub extern "C" fn hx_n_rtp() {
    let mut o = Rtp::default();
    let at: *mut Rtp = &mut o;
    REFUSE.with(|r| *r.borrow_mut() = true);
    sx::check!(RtpObserver::new(ptr::Borrowed::from_ptr(at as *const Rtp)).is_err());
    REFUSE.with(|r| *r.borrow_mut() = false);
    let ro = RtpObserver::new(ptr::Borrowed::from_ptr(at as *const Rtp));
    sx::check!(ro.is_ok());
    std::mem::forget(ro);
    let (to, cb) = CALLBACKS.with(|c| c.borrow_mut().take()).unwrap();
    sx::check!(std::ptr::eq(to, at as *const c_void));
    let mut want = vec![];
    for _ in 0..2 {
        let (pt, seqnum, timestamp, ssrc) = (sx::u8(), sx::u16(), sx::u32(), sx::u32());
        let n = sx::pick(0, 3) as usize;
        let data = sx::vec(n);
        let null_data = sx::concb(sx::bool());
        let null_obs = sx::concb(sx::bool());
        cb(
            if null_obs { std::ptr::null() } else { to },
            pt,
            seqnum,
            timestamp,
            ssrc,
            if null_data { std::ptr::null() } else { data.as_ptr() },
            n,
        );
        if !null_data && !null_obs {
            want.push((pt, seqnum, timestamp, ssrc, data));
        }
    }
    let o = unsafe { &*at };
    sx::check!(o.0.len() == want.len());
    for ((h, d), w) in o.0.iter().zip(&want) {
        sx::check!((h.pt, h.seqnum, h.timestamp, h.ssrc) == (w.0, w.1, w.2, w.3));
        sx::check!(*d == w.4);
    }
    sx::cover!(want.len() == 2);
    sx::cover!(want.is_empty());
}

#[derive(Default)]
struct Net {
    sender: Option<RawSender>,
    interfaces: Vec<(String, u32, RawIp, u16)>,
    removed: Vec<String>,
    received: Vec<(RawIpPort, RawIpPort, Vec<u8>)>,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawSender {
    object: *const c_void,
    send_udp: extern "C" fn(*const c_void, RawIpPort, RawIpPort, *const u8, usize),
    delete: extern "C" fn(*const c_void),
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_InjectableNetwork_SetSender(_: *const c_void, s: *const c_void) {
    let s = unsafe { *(s as *const RawSender) };
    let old = NET.with(|n| n.borrow_mut().sender.replace(s));
    if let Some(old) = old {
        (old.delete)(old.object);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_InjectableNetwork_AddInterface(
    _: *const c_void,
    name: *const c_char,
    typ: u32,
    ip: RawIp,
    preference: u16,
) {
    let name = unsafe { CStr::from_ptr(name) }.to_str().unwrap().to_string();
    NET.with(|n| n.borrow_mut().interfaces.push((name, typ, ip, preference)));
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_InjectableNetwork_RemoveInterface(_: *const c_void, name: *const c_char) {
    let name = unsafe { CStr::from_ptr(name) }.to_str().unwrap().to_string();
    NET.with(|n| n.borrow_mut().removed.push(name));
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_InjectableNetwork_ReceiveUdp(
    _: *const c_void,
    source: RawIpPort,
    dest: RawIpPort,
    data: *const u8,
    size: usize,
) {
    let data = unsafe { std::slice::from_raw_parts(data, size) }.to_vec();
    NET.with(|n| n.borrow_mut().received.push((source, dest, data)));
}

struct Sent {
    log: Arc<Mutex<Vec<Packet>>>,
    gone: Arc<Mutex<usize>>,
}
impl PacketSender for Sent {
    fn send_udp(&self, p: Packet) {
        self.log.lock().unwrap().push(p);
    }
}
impl Drop for Sent {
    fn drop(&mut self) {
        *self.gone.lock().unwrap() += 1;
    }
}

//@ harness bound="1_packet_out,1_packet_in,2_senders,any_addresses,up_to_3_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_n_inject() {
    let owner = webrtc::Arc::<RffiPeerConnectionFactoryOwner>::null();
    let net = InjectableNetwork::new(
        ptr::Borrowed::from_ptr(0x1000 as *const RffiInjectableNetwork),
        owner,
    );
    let (l1, l2) = (Arc::default(), Arc::default());
    let gone: Arc<Mutex<usize>> = Default::default();
    let mk = |l: &Arc<Mutex<Vec<Packet>>>| Sent {
        log: l.clone(),
        gone: gone.clone(),
    };
    net.set_sender(Box::new(mk(&l1)));
    let two = sx::concb(sx::bool());
    if two {
        net.set_sender(Box::new(mk(&l2)));
    }
    sx::check!(*gone.lock().unwrap() == two as usize);
    let s = NET.with(|n| n.borrow().sender).unwrap();
    let (src, a) = any_raw();
    let (dst, b) = any_raw();
    let n = sx::pick(0, 3) as usize;
    let mut data = sx::vec(n);
    let want = data.clone();
    let null = sx::concb(sx::bool());
    (s.send_udp)(
        if null { std::ptr::null() } else { s.object },
        src,
        dst,
        data.as_ptr(),
        n,
    );
    // what WebRTC does with its buffer afterwards is its own affair
    data.iter_mut().for_each(|b| *b ^= 255);
    {
        let (to, other) = if two { (&l2, &l1) } else { (&l1, &l2) };
        sx::check!(other.lock().unwrap().is_empty());
        let to = to.lock().unwrap();
        if null {
            sx::check!(to.is_empty());
            sx::cover!();
        } else {
            sx::check!(to.len() == 1);
            sx::check!(to[0].source == a && to[0].dest == b && to[0].data == want);
            sx::cover!();
        }
    }
    (s.delete)(std::ptr::null());
    sx::check!(*gone.lock().unwrap() == two as usize);
    (s.delete)(s.object);
    sx::check!(*gone.lock().unwrap() == two as usize + 1);

    let (a, b) = (any_addr(), any_addr());
    let data = sx::bytes::<3>();
    net.receive_udp(Packet {
        source: a,
        dest: b,
        data: data.to_vec(),
    });
    let (types, ip, pref) = (
        [
            (NetworkInterfaceType::Unknown, 0),
            (NetworkInterfaceType::Ethernet, 1),
            (NetworkInterfaceType::Wifi, 2),
            (NetworkInterfaceType::Cellular, 4),
            (NetworkInterfaceType::Vpn, 8),
            (NetworkInterfaceType::Loopback, 16),
            (NetworkInterfaceType::Any, 32),
        ],
        any_ip(),
        sx::u16(),
    );
    let t = types[sx::pick(0, 6) as usize];
    net.add_interface("if0", t.0, ip, pref);
    net.remove_interface("if1");
    NET.with(|n| {
        let n = n.borrow();
        sx::check!(n.received.len() == 1);
        let r = &n.received[0];
        sx::check!(same(&r.0, &a) && same(&r.1, &b) && r.2 == data);
        sx::check!(n.interfaces.len() == 1 && n.interfaces[0].0 == "if0");
        sx::check!(n.interfaces[0].1 == t.1 && n.interfaces[0].3 == pref);
        sx::check!(same_ip(&n.interfaces[0].2, &ip));
        sx::check!(n.removed == ["if1"]);
    });
}
