//@ property=R01
// The simulated network: what is delivered, where, when, and what is not.
use ringrtc::common::actor::Stopper;
use ringrtc::common::units::{DataRate, DataSize};
use ringrtc::simnet::router::{LinkConfig, Packet, Router};
use std::net::{IpAddr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Way {
    delay: u64, // ms
    lossy: bool,
    // after a loss
    again: bool,
    kbps: u64,
    queue: u64,
}
impl Way {
    fn config(&self) -> LinkConfig {
        let p = |b| if b { 1.0 } else { 0.0 };
        LinkConfig {
            delay_min: Duration::from_millis(self.delay),
            delay_max: Duration::from_millis(self.delay + 1),
            loss_probability: p(self.lossy),
            repeated_loss_probability: p(self.again),
            rate: DataRate::from_kbps(self.kbps),
            queue_size: DataSize::from_bytes(self.queue),
        }
    }
    /// ns
    fn transmit(&self, size: u64) -> u64 {
        size * 8 * 1_000_000 / self.kbps
    }
}

type Log = Arc<Mutex<Vec<(usize, Packet, Instant)>>>;
struct World {
    stopper: Stopper,
    router: Router,
    log: Log,
    ips: Vec<IpAddr>,
    ways: Vec<(Way, Way)>,
}
fn world(v6: bool, ways: Vec<(Way, Way)>) -> World {
    let stopper = Stopper::new();
    let router = Router::start(&stopper).unwrap();
    let log: Log = Default::default();
    let mut ips = vec![];
    for (k, (s, r)) in ways.iter().enumerate() {
        let b = k as u8;
        let ip = if v6 {
            IpAddr::from([0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, b])
        } else {
            IpAddr::from([10, 0, 0, b])
        };
        let l = log.clone();
        router
            .add_interface(
                ip,
                s.config(),
                r.config(),
                Box::new(move |p: Packet| l.lock().unwrap().push((k, p, Instant::now()))),
            )
            .unwrap();
        ips.push(ip);
    }
    let spare = ways.len() as u8;
    ips.push(if v6 {
        IpAddr::from([0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, spare])
    } else {
        IpAddr::from([10, 0, 0, spare])
    });
    World {
        stopper,
        router,
        log,
        ips,
        ways,
    }
}

/// One packet between any two of two interfaces and an unknown address.
//@ harness bound="1_packet_of_2_symbolic_bytes,any_ports,2_interfaces_and_an_unknown_one,IPv4_or_IPv6,links_with_2_delays,rates,queue_sizes,losing_all_or_nothing"
#[unsafe(no_mangle)]
pub extern "C" fn hx_r_one() {
    let v6 = sx::concb(sx::bool());
    let over = if v6 { 48 } else { 28 };
    let size = 2 + over;
    let any = || Way {
        delay: sx::pick(0, 1) * 3 + 2,
        lossy: sx::concb(sx::bool()),
        again: true,
        kbps: [8, 100][sx::pick(0, 1) as usize],
        queue: size - sx::pick(0, 1),
    };
    let (from, to) = (sx::pick(0, 2) as usize, sx::pick(0, 2) as usize);
    // links the packet does not use do not matter
    let good = Way {
        delay: 1,
        lossy: false,
        again: true,
        kbps: 1000,
        queue: 1000,
    };
    let bad = Way {
        delay: 1,
        lossy: true,
        again: true,
        kbps: 1000,
        queue: 0,
    };
    let s = if from < 2 && to < 2 { any() } else { good };
    let r = if from < 2 && to < 2 { any() } else { good };
    let mut ways = vec![(bad, bad), (bad, bad), (bad, bad)];
    ways[from].0 = s;
    ways[to].1 = r;
    ways.pop();
    let w = world(v6, ways);
    let (sp, dp) = (sx::u16(), sx::u16());
    let data = sx::bytes::<2>();
    sx::idle();
    let start = Instant::now();
    w.router.send_packet(Packet {
        source: SocketAddr::new(w.ips[from], sp),
        dest: SocketAddr::new(w.ips[to], dp),
        data: data.to_vec(),
    });
    std::thread::sleep(Duration::from_secs(10));
    let log = w.log.lock().unwrap();
    let through = from < 2
        && to < 2
        && [s, r].iter().all(|w| !w.lossy && w.queue >= size);
    sx::check!(log.len() == through as usize);
    if through {
        let (k, p, at) = &log[0];
        sx::check!(*k == to);
        sx::check!(p.source == SocketAddr::new(w.ips[from], sp));
        sx::check!(p.dest == SocketAddr::new(w.ips[to], dp));
        sx::check!(p.data == data);
        let took = (s.delay + r.delay) * 1_000_000 + s.transmit(size) + r.transmit(size);
        sx::check!(at.duration_since(start) == Duration::from_nanos(took));
        sx::cover!(from == to);
        sx::cover!(from != to);
    } else {
        sx::cover!(from == 2);
        sx::cover!(to == 2);
        sx::cover!(s.lossy);
        sx::cover!(!r.lossy && r.queue < size);
    }
    drop(log);
    w.stopper.stop_all_and_join();
}

/// Several packets on the same way: those that fit the queue arrive, in order, each once, spaced
/// by the time they take.
fn several(n: usize, explore: bool) {
    let size = 30;
    let queue = sx::pick(0, n as u64) * size + sx::pick(0, 1) * (size - 1);
    let narrow = sx::concb(sx::bool());
    let s = Way {
        delay: 2,
        lossy: false,
        again: true,
        kbps: 100,
        queue,
    };
    let r = Way {
        delay: 2,
        lossy: false,
        again: true,
        kbps: if narrow { 50 } else { 400 },
        queue: 1000,
    };
    let w = world(false, vec![(s, r), (s, r)]);
    sx::idle();
    sx::explore(explore);
    let gap = sx::pick(0, 2);
    let start = Instant::now();
    let datas: Vec<[u8; 2]> = (0..n).map(|_| sx::bytes::<2>()).collect();
    for (k, d) in datas.iter().enumerate() {
        w.router.send_packet(Packet {
            source: SocketAddr::new(w.ips[0], k as u16),
            dest: SocketAddr::new(w.ips[1], 7),
            data: d.to_vec(),
        });
        if gap > 0 {
            std::thread::sleep(Duration::from_millis(gap * 2));
        }
    }
    std::thread::sleep(Duration::from_secs(10));
    let log = w.log.lock().unwrap();
    let fit = (queue / size) as usize;
    sx::check!(log.len() >= fit.min(n));
    if gap == 0 {
        // one may be under way and no longer queued
        sx::check!(log.len() <= if fit == 0 { 0 } else { fit + 1 });
    } else if gap * 2_000_000 >= s.transmit(size) && fit > 0 {
        sx::check!(log.len() == n);
        sx::cover!();
    }
    sx::cover!(log.len() == n);
    sx::cover!(log.len() < n);
    let least = 4_000_000 + s.transmit(size) + r.transmit(size);
    let mut last: Option<(usize, Instant)> = None;
    let mut seen = vec![false; n];
    for (to, p, at) in log.iter() {
        sx::check!(*to == 1 && p.dest == SocketAddr::new(w.ips[1], 7));
        let k = p.source.port() as usize;
        sx::check!(p.source.ip() == w.ips[0] && p.data == datas[k]);
        sx::check!(!std::mem::replace(&mut seen[k], true));
        let sent = k as u64 * gap * 2_000_000;
        sx::check!(at.duration_since(start) >= Duration::from_nanos(sent + least));
        if let Some((j, before)) = last {
            sx::check!(gap == 0 || j < k);
            let apart = r.transmit(size);
            sx::check!(at.duration_since(before) >= Duration::from_nanos(apart));
        }
        last = Some((k, *at));
    }
    drop(log);
    w.stopper.stop_all_and_join();
}
//@ harness bound="3_packets_of_2_symbolic_bytes_on_one_way,8_queue_sizes,3_gaps,2_rates"
#[unsafe(no_mangle)]
pub extern "C" fn hx_r_several() {
    several(3, false);
}

/// Whether a packet is lost is up to one probability, or to another after a loss, on each link.
//@ harness bound="5_packets_of_2_symbolic_bytes,every_combination_of_certain_and_impossible_losses"
#[unsafe(no_mangle)]
pub extern "C" fn hx_r_loss() {
    let any = || Way {
        delay: 1,
        lossy: sx::concb(sx::bool()),
        again: sx::concb(sx::bool()),
        kbps: 1000,
        queue: 1000,
    };
    let (s, r) = (any(), any());
    let w = world(false, vec![(s, r)]);
    let datas: Vec<[u8; 2]> = (0..5).map(|_| sx::bytes::<2>()).collect();
    for (k, d) in datas.iter().enumerate() {
        w.router.send_packet(Packet {
            source: SocketAddr::new(w.ips[0], k as u16),
            dest: SocketAddr::new(w.ips[0], 7),
            data: d.to_vec(),
        });
    }
    std::thread::sleep(Duration::from_secs(1));
    let (mut ps, mut pr) = (false, false);
    // packets due at the same instant may overtake each other before the second link
    let (mut want, mut sent) = (vec![], vec![]);
    for k in 0..5u16 {
        ps = if ps { s.again } else { s.lossy };
        if ps {
            continue;
        }
        sent.push(k);
        pr = if pr { r.again } else { r.lossy };
        if !pr {
            want.push(k);
        }
    }
    let log = w.log.lock().unwrap();
    let mut got: Vec<u16> = log.iter().map(|x| x.1.source.port()).collect();
    got.sort();
    sx::check!(got.len() == want.len());
    sx::check!(got.windows(2).all(|w| w[0] != w[1]));
    sx::check!(got.iter().all(|k| sent.contains(k)));
    for (_, p, _) in log.iter() {
        sx::check!(p.data == datas[p.source.port() as usize]);
    }
    sx::cover!(want.len() == 5);
    sx::cover!(want.is_empty());
    sx::cover!(want.len() == 1);
    drop(log);
    w.stopper.stop_all_and_join();
}

/// Once stopped nothing is delivered any more.
//@ harness bound="1_packet,stopped_at_any_of_5_times"
#[unsafe(no_mangle)]
pub extern "C" fn hx_r_stop() {
    let x = Way {
        delay: 2,
        lossy: false,
        again: true,
        kbps: 240,
        queue: 100,
    };
    let w = world(false, vec![(x, x)]);
    w.router.send_packet(Packet {
        source: SocketAddr::new(w.ips[0], 1),
        dest: SocketAddr::new(w.ips[0], 2),
        data: vec![1, 2],
    });
    let ms = sx::pick(0, 7);
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms));
    }
    w.stopper.stop_all_and_join();
    let n = w.log.lock().unwrap().len();
    sx::check!(n <= 1);
    std::thread::sleep(Duration::from_secs(1));
    sx::check!(w.log.lock().unwrap().len() == n);
    sx::cover!(n == 0);
    sx::cover!(n == 1);
}
