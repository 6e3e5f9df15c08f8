//@ property=M02
// The sending half: window, acknowledgements, resends.
use mrp::*;
use std::time::{Duration, Instant};

/// What arrives, which no sender looks at.
struct Inc;
impl Extend<Inc> for Inc {
    fn extend<I: IntoIterator<Item = Inc>>(&mut self, _it: I) {}
}
type S = MrpStream<u64, Inc>;

/// An acknowledgement arrives, at either of the receiving functions.
fn acked(s: &mut S, merging: bool, ack: u64) {
    let h = MrpHeader { seqnum: None, ack_num: Some(ack), num_packets: None };
    let r = if merging { s.receive_and_merge(&h, Inc) } else { s.receive(&h, Inc) };
    sx::check!(matches!(r, Ok(ref v) if v.is_empty()));
}

fn ops(cap: usize, steps: usize) {
    let merging = sx::concb(sx::bool());
    let base = Instant::now();
    let at = |t: u64| base + Duration::from_secs(t);
    let mut s = S::with_capacity_limit(cap);
    // packet seqnum k is at index k
    let mut tag = [0u64; 8];
    let mut due = [0u64; 8];
    let mut left = 1usize;
    let mut next = 1usize;
    for _ in 0..steps {
        match sx::pick(0, 2) {
            0 => {
                let fail = sx::concb(sx::bool());
                let t = sx::u64();
                let d = sx::range(0, 100);
                let mut hdr = None;
                let r = s.try_send(|h| {
                    hdr = Some(h);
                    if fail { Err(anyhow::anyhow!("x")) } else { Ok((t, at(d))) }
                });
                if next - left == cap {
                    sx::check!(matches!(r, Err(MrpSendError::SendWindowFull)));
                    sx::check!(hdr.is_none());
                    sx::cover!();
                } else {
                    let h = hdr.unwrap();
                    sx::check!(h.seqnum == Some(next as u64));
                    sx::check!(h.ack_num.is_none() && h.num_packets.is_none());
                    if fail {
                        sx::check!(matches!(r, Err(MrpSendError::InnerSendFailed(_))));
                    } else {
                        sx::check!(r.is_ok());
                        tag[next] = t;
                        due[next] = d;
                        next += 1;
                    }
                }
            }
            1 => {
                let ack = sx::u64();
                acked(&mut s, merging, ack);
                if ack >= left as u64 && ack <= next as u64 {
                    let a = sx::conc(ack) as usize;
                    sx::cover!(a > left);
                    left = a;
                } else {
                    // stale or impossible
                    sx::cover!(ack > next as u64);
                    sx::cover!(ack < left as u64);
                }
            }
            _ => {
                let now = sx::range(0, 100);
                let nd = sx::range(0, 100);
                let fail_after = sx::pick(0, 2);
                let mut calls = [0u64; 8];
                let mut n = 0usize;
                let r = s.try_resend(at(now), |p| {
                    if n as u64 == fail_after && fail_after > 0 {
                        return Err(anyhow::anyhow!("x"));
                    }
                    calls[n] = *p;
                    n += 1;
                    Ok(at(nd))
                });
                // exactly the unacknowledged ones whose time has come, in order
                let mut k = 0usize;
                let mut failed = false;
                for i in left..next {
                    if now >= due[i] {
                        if k as u64 == fail_after && fail_after > 0 {
                            failed = true;
                            break;
                        }
                        sx::check!(k < n && calls[k] == tag[i]);
                        due[i] = nd;
                        k += 1;
                    }
                }
                sx::check!(k == n);
                sx::check!(r.is_err() == failed);
                sx::cover!(n >= 2);
                sx::cover!(failed);
            }
        }
        sx::check!(s.send_len() == next - left);
        sx::observe(s.send_len() as u64);
    }
}

//@ harness bound="capacity_2,4_operations,any_u64_acks"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_send_c2() {
    ops(2, 4)
}

//@ harness tier=thorough bound="capacity_3,5_operations,any_u64_acks"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_send_c3() {
    ops(3, 5)
}

/// An arbitrary prefix of sends and one acknowledgement, then what the window still holds.
//@ harness bound="capacity_1..4,up_to_4_sends,two_acks_any_u64"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_send_ack() {
    let base = Instant::now();
    let cap = sx::pick(1, 4) as usize;
    let merging = sx::concb(sx::bool());
    let mut s = S::with_capacity_limit(cap);
    let sends = sx::pick(0, 5);
    let mut next = 1u64;
    for i in 0..sends {
        let r = s.try_send(|h| Ok((h.seqnum.unwrap(), base)));
        sx::check!(r.is_ok() == (i < cap as u64));
        if r.is_ok() {
            next += 1;
        }
    }
    let mut left = 1u64;
    for _ in 0..2 {
        let ack = sx::u64();
        acked(&mut s, merging, ack);
        if ack >= left && ack <= next {
            left = ack;
        }
        sx::check!(s.send_len() as u64 == next - left);
    }
    let left = sx::conc(left);
    let mut want = left;
    let r = s.try_resend(base, |p| {
        sx::check!(*p == want);
        want += 1;
        Ok(base)
    });
    sx::check!(r.is_ok() && want == next);
    sx::cover!(left == next && next == 5);
    sx::cover!(left == 2 && next == 4);
    // a freed window takes new packets and goes on counting
    let r = s.try_send(|h| Ok((h.seqnum.unwrap(), base)));
    sx::check!(r.is_ok() == (next - left < cap as u64));
}
