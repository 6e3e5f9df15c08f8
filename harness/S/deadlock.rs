//@ property=K08
// Whatever happens at once, every thread gets on.
use crate::plat::*;
use ringrtc::{
    common::{units::DataRate, *},
    core::signaling::*,
    webrtc::peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
};

fn route(relayed: bool) -> NetworkRoute {
    NetworkRoute {
        local_adapter_type: NetworkAdapterType::Wifi,
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: relayed,
        local_relay_protocol: TransportProtocol::Udp,
        remote_relayed: false,
    }
}
const ALL: [u64; OPS as usize] = {
    let mut a = [0; OPS as usize];
    let mut i = 0;
    while i < OPS {
        a[i as usize] = i;
        i += 1;
    }
    a
};
const OPS: u64 = World::OPS + 5;
/// Anything that may happen, not waiting for what it leads to.
fn act(w: &mut World, op: u64) {
    if op < World::OPS {
        return w.step(op);
    }
    let Some(mut c) = w.conn(1) else {
        sx::assume(false);
        return;
    };
    let s = |v| SenderStatus { video_enabled: Some(v), ..Default::default() };
    match op - World::OPS {
        0 => c.inject_ice_network_route_changed(route(true)).unwrap(),
        1 => c.inject_update_data_mode(DataMode::Low).unwrap(),
        2 => c.update_sender_status(s(true)).unwrap(),
        3 => c
            .inject_received_receiver_status_via_rtp_data(c.call_id(), DataRate::from_bps(50_000), 1)
            .unwrap(),
        _ => c.inject_received_sender_status_via_rtp_data(c.call_id(), s(true), 1).unwrap(),
    }
}
fn over(mut w: World) {
    sx::idle();
    sx::delays(0);
    w.cm.hangup().unwrap();
    for _ in 0..5 {
        sx::idle();
        w.cm.message_sent(w.id()).unwrap();
    }
    sx::idle();
    sx::check!(!w.cm.busy());
    sx::check!(w.app.count(ID, |e| matches!(e, Ev::Concluded)) > 0);
    sx::cover!();
}

/// What the threads of the application and the network do most.
const MAIN: [u64; 14] = [2, 3, 6, 7, 10, 11, 17, 18, 19, 23, 24, 25, 26, 27];

fn at_once(stage: u64, ops: &[u64], part: u64, parts: u64, delays: u32) {
    let mut w = World::new();
    w.racing = true;
    if sx::concb(sx::bool()) {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    let (a, b) = (sx::pick(0, ops.len() as u64 - 1), sx::pick(0, ops.len() as u64 - 1));
    sx::assume(a % parts == part);
    sx::delays(delays);
    act(&mut w, ops[a as usize]);
    act(&mut w, ops[b as usize]);
    over(w);
}
/// The same with each of the two on its own thread.
fn threads(stage: u64, ops: &[u64], part: u64, parts: u64) {
    let mut w = World::new();
    w.racing = true;
    if sx::concb(sx::bool()) {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    let (a, b) = (sx::pick(0, ops.len() as u64 - 1), sx::pick(0, ops.len() as u64 - 1));
    sx::assume(a % parts == part);
    let mut w2 = World::again(&w);
    let b = ops[b as usize];
    sx::delays(1);
    let t = std::thread::spawn(move || act(&mut w2, b));
    act(&mut w, ops[a as usize]);
    sx::idle();
    sx::check!(t.is_finished());
    over(w);
}

//@ harness bound="a_connected_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_connected_0() {
    at_once(4, &MAIN, 0, 4, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_connected_1() {
    at_once(4, &MAIN, 1, 4, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_connected_2() {
    at_once(4, &MAIN, 2, 4, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_connected_3() {
    at_once(4, &MAIN, 3, 4, 1)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_ringing_0() {
    at_once(3, &MAIN, 0, 4, 1)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_ringing_1() {
    at_once(3, &MAIN, 1, 4, 1)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_ringing_2() {
    at_once(3, &MAIN, 2, 4, 1)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_ringing_3() {
    at_once(3, &MAIN, 3, 4, 1)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events_on_2_threads,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_threads_0() {
    threads(3, &MAIN, 0, 4)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events_on_2_threads,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_threads_1() {
    threads(3, &MAIN, 1, 4)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events_on_2_threads,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_threads_2() {
    threads(3, &MAIN, 2, 4)
}

//@ harness bound="a_ringing_call_in_either_direction,a_quarter_of_any_2_of_14_events_on_2_threads,every_schedule_with_1_delay"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_threads_3() {
    threads(3, &MAIN, 3, 4)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_0() {
    at_once(4, &ALL, 0, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_1() {
    at_once(4, &ALL, 1, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_2() {
    at_once(4, &ALL, 2, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_3() {
    at_once(4, &ALL, 3, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_4() {
    at_once(4, &ALL, 4, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_5() {
    at_once(4, &ALL, 5, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_seventh_of_any_2_of_28_events,every_schedule_with_1_delay" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_all_6() {
    at_once(4, &ALL, 6, 7, 1)
}

//@ harness bound="a_connected_call_in_either_direction,a_fifth_of_any_2_of_5_events,every_schedule_with_2_delays" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_2_0() {
    at_once(4, &[3, 17, 23, 24, 26], 0, 5, 2)
}

//@ harness bound="a_connected_call_in_either_direction,a_fifth_of_any_2_of_5_events,every_schedule_with_2_delays" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_2_1() {
    at_once(4, &[3, 17, 23, 24, 26], 1, 5, 2)
}

//@ harness bound="a_connected_call_in_either_direction,a_fifth_of_any_2_of_5_events,every_schedule_with_2_delays" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_2_2() {
    at_once(4, &[3, 17, 23, 24, 26], 2, 5, 2)
}

//@ harness bound="a_connected_call_in_either_direction,a_fifth_of_any_2_of_5_events,every_schedule_with_2_delays" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_2_3() {
    at_once(4, &[3, 17, 23, 24, 26], 3, 5, 2)
}

//@ harness bound="a_connected_call_in_either_direction,a_fifth_of_any_2_of_5_events,every_schedule_with_2_delays" tier=thorough secs=600
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_at_once_2_4() {
    at_once(4, &[3, 17, 23, 24, 26], 4, 5, 2)
}
