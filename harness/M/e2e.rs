//@ property=M03
// Two streams over a channel that loses, repeats and reorders.
use mrp::*;
use std::time::{Duration, Instant};

type S = MrpStream<(u64, u64), u64>;

/// One direction of data, the other of acknowledgements. Everything that was ever put on the
/// wire may arrive at any later time, any number of times, or never.
fn chaos(cap: usize, msgs: usize, steps: usize) {
    let base = Instant::now();
    let mut a = S::with_capacity_limit(cap);
    let mut b = S::with_capacity_limit(cap);
    let mut tags = [0u64; 8];
    let mut sent = 0usize;
    let mut got = 0usize;
    // seqnums (and payloads) on the wire; acks on the wire
    let mut wire: [(u64, u64); 8] = [(0, 0); 8];
    let mut nw = 0usize;
    let mut acks = [0u64; 16];
    let mut na = 0usize;
    for _ in 0..steps {
        match sx::pick(0, 3) {
            0 if sent < msgs => {
                let t = sx::u64();
                let r = a.try_send(|h| Ok(((h.seqnum.unwrap(), t), base)));
                if r.is_ok() {
                    tags[sent] = t;
                    sent += 1;
                    wire[nw] = (sent as u64, t);
                    nw += 1;
                }
            }
            1 if nw > 0 => {
                // any of the packets so far arrives (again)
                let k = sx::range(0, 7) as usize;
                sx::assume(k < nw);
                let (seq, t) = wire[k];
                let h = MrpHeader { seqnum: Some(seq), ack_num: None, num_packets: None };
                if let Ok(v) = b.receive(&h, t) {
                    for x in v {
                        sx::check!(got < sent && x == tags[got]);
                        got += 1;
                    }
                }
            }
            2 => {
                let _ = b.try_send_ack(|h| {
                    acks[na] = h.ack_num.unwrap();
                    na += 1;
                    Ok(())
                });
            }
            3 if na > 0 => {
                let k = sx::range(0, 15) as usize;
                sx::assume(k < na);
                let h = MrpHeader { seqnum: None, ack_num: Some(acks[k]), num_packets: None };
                let r = a.receive(&h, 0);
                sx::check!(r.is_ok());
            }
            _ => sx::assume(false),
        }
        // never ahead of what was sent, and nothing that was not delivered has left the window
        sx::check!(b.ack_seqnum() == got as u64 + 1);
        sx::check!(got <= sent);
        sx::check!(a.send_len() >= sent - got && a.send_len() <= cap);
        sx::cover!(got == 2);
        sx::cover!(got == 1 && a.send_len() == 0);
    }
    // From here on the network delivers: all that was sent arrives after one resend.
    let mut out: [(u64, u64); 8] = [(0, 0); 8];
    let mut n = 0;
    let r = a.try_resend(base + Duration::from_secs(1), |p| {
        out[n] = *p;
        n += 1;
        Ok(base)
    });
    sx::check!(r.is_ok());
    for i in 0..n {
        let h = MrpHeader { seqnum: Some(out[i].0), ack_num: None, num_packets: None };
        let r = b.receive(&h, out[i].1);
        sx::check!(r.is_ok());
        if let Ok(v) = r {
            for x in v {
                sx::check!(got < sent && x == tags[got]);
                got += 1;
            }
        }
    }
    sx::check!(got == sent);
    let mut ack = None;
    let r = b.try_send_ack(|h| {
        ack = h.ack_num;
        Ok(())
    });
    sx::check!(r.is_ok());
    if let Some(x) = ack {
        let h = MrpHeader { seqnum: None, ack_num: Some(x), num_packets: None };
        let _ = a.receive(&h, 0);
        sx::check!(a.send_len() == 0);
    } else {
        sx::check!(n == 0);
    }
    sx::observe(got as u64);
    sx::cover!(n >= 2);
}

//@ harness bound="capacity_2,2_messages,5_channel_events_then_a_working_network"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_e2e_c2() {
    chaos(2, 2, 5)
}

//@ harness tier=thorough bound="capacity_2,3_messages,7_channel_events_then_a_working_network"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_e2e_long() {
    chaos(2, 3, 7)
}

/// A resend after a loss repeats what was sent first.
//@ harness bound="capacity_3,3_messages,any_arrival_order_any_losses"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_e2e_loss() {
    let base = Instant::now();
    let mut a = S::with_capacity_limit(3);
    let mut b = S::with_capacity_limit(3);
    let tags = [sx::u64(), sx::u64(), sx::u64()];
    for t in tags {
        let r = a.try_send(|h| Ok(((h.seqnum.unwrap(), t), base)));
        sx::check!(r.is_ok());
    }
    let mut got = 0usize;
    // a first round of up to three arrivals in any order, with repeats
    for _ in 0..3 {
        let k = sx::range(0, 3) as usize;
        if k < 3 {
            let h = MrpHeader { seqnum: Some(k as u64 + 1), ack_num: None, num_packets: None };
            let r = b.receive(&h, tags[k]);
            sx::check!(r.is_ok());
            for x in r.unwrap_or_default() {
                sx::check!(got < 3 && x == tags[got]);
                got += 1;
            }
        }
    }
    let mut ack = None;
    let _ = b.try_send_ack(|h| {
        ack = h.ack_num;
        Ok(())
    });
    if let Some(x) = ack {
        sx::check!(x == got as u64 + 1);
        let h = MrpHeader { seqnum: None, ack_num: Some(x), num_packets: None };
        let _ = a.receive(&h, 0);
        sx::check!(a.send_len() == 3 - got);
    } else {
        sx::check!(got == 0);
    }
    let mut v: [(u64, u64); 4] = [(0, 0); 4];
    let mut n = 0;
    let _ = a.try_resend(base + Duration::from_secs(9), |p| {
        v[n] = *p;
        n += 1;
        Ok(base)
    });
    sx::check!(n == 3 - got);
    for (seq, t) in &v[..n] {
        let h = MrpHeader { seqnum: Some(*seq), ack_num: None, num_packets: None };
        for x in b.receive(&h, *t).unwrap_or_default() {
            sx::check!(got < 3 && x == tags[got]);
            got += 1;
        }
    }
    sx::check!(got == 3);
    sx::cover!(n == 1);
    sx::cover!(n == 3);
}
