//@ property=M01
// The receiving half of a stream against an arbitrary sequence of arrivals.
use mrp::*;

type S = MrpStream<u8, u64>;

/// What a receiver is supposed to do: the set of seqnums it holds, and the next one it is due.
struct Model {
    cap: u64,
    next: u64,
    have: [Option<u64>; 8],
}

impl Model {
    /// (accepted, how many become ready)
    fn arrive(&mut self, seq: u64, tag: u64) -> (u8, usize, [u64; 8]) {
        let mut out = [0u64; 8];
        if seq < self.next {
            return (1, 0, out);
        }
        if seq - self.next >= self.cap {
            return (2, 0, out);
        }
        let off = sx::conc(seq - self.next) as usize;
        self.have[off] = Some(tag);
        let mut n = 0;
        while let Some(t) = self.have[0] {
            out[n] = t;
            n += 1;
            let mut i = 0;
            while i + 1 < 8 {
                self.have[i] = self.have[i + 1];
                i += 1;
            }
            self.have[7] = None;
        }
        self.next += n as u64;
        (0, n, out)
    }
}

fn arrivals(cap: usize, steps: usize) {
    let mut s = S::with_capacity_limit(cap);
    let mut m = Model { cap: cap as u64, next: 1, have: [None; 8] };
    for _ in 0..steps {
        let seq = sx::u64();
        let tag = sx::u64();
        let before = m.next;
        let (what, n, due) = m.arrive(seq, tag);
        let h = MrpHeader { seqnum: Some(seq), ack_num: None, num_packets: None };
        let r = s.receive(&h, tag);
        match &r {
            Ok(got) => {
                sx::check!(what != 2);
                sx::check!(got.len() == n);
                for i in 0..got.len().min(n) {
                    sx::check!(got[i] == due[i]);
                }
                sx::cover!(what == 1);
                sx::cover!(n >= 2);
            }
            Err(e) => {
                sx::check!(what == 2);
                sx::check!(*e == MrpReceiveError::ReceiveWindowFull(seq));
                sx::cover!();
            }
        }
        sx::check!(s.ack_seqnum() == m.next);
        sx::observe(s.ack_seqnum());
        // An acknowledgement is due when data was delivered or an old packet came again, and it
        // names the next packet that is due.
        if sx::bool() {
            let mut acks = 0;
            let mut named = None;
            let r = s.try_send_ack(|h| {
                acks += 1;
                named = h.ack_num;
                sx::check!(h.seqnum.is_none() && h.num_packets.is_none());
                Ok(())
            });
            if what == 1 || n > 0 {
                sx::check!(acks == 1);
                sx::cover!(what == 1);
            }
            if acks == 1 {
                sx::check!(named == Some(m.next));
                sx::check!(matches!(r, Ok(Some(x)) if x == m.next));
                // once it went out there is none due
                let mut again = 0;
                let _ = s.try_send_ack(|_| {
                    again += 1;
                    Ok(())
                });
                sx::check!(again == 0);
            } else {
                sx::check!(matches!(r, Ok(None)));
            }
        }
        sx::check!(m.next >= before);
    }
}

//@ harness bound="capacity_1,4_arrivals,any_u64_sequence_numbers"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_recv_c1() {
    let mut s = S::with_capacity_limit(1);
    let mut next = 1u64;
    for _ in 0..4 {
        let seq = sx::u64();
        let tag = sx::u64();
        let h = MrpHeader { seqnum: Some(seq), ack_num: None, num_packets: None };
        match s.receive(&h, tag) {
            Ok(v) => {
                if seq == next {
                    sx::check!(v.len() == 1 && v[0] == tag);
                    next += 1;
                    sx::cover!();
                } else {
                    sx::check!(seq < next && v.is_empty());
                    sx::cover!();
                }
            }
            Err(e) => {
                sx::check!(seq > next);
                sx::check!(e == MrpReceiveError::ReceiveWindowFull(seq));
                sx::cover!();
            }
        }
        sx::check!(s.ack_seqnum() == next);
    }
}

//@ harness bound="capacity_2,4_arrivals,any_u64_sequence_numbers"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_recv_c2() {
    arrivals(2, 4)
}

//@ harness bound="capacity_3,4_arrivals,any_u64_sequence_numbers"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_recv_c3() {
    arrivals(3, 4)
}

//@ harness tier=thorough bound="capacity_4,5_arrivals,any_u64_sequence_numbers"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_recv_c4() {
    arrivals(4, 5)
}

/// A failed acknowledgement stays due.
//@ harness bound="any_failure_pattern_over_4_attempts"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_ack_retry() {
    let mut s = S::with_capacity_limit(4);
    let mut due = false;
    for _ in 0..4 {
        if sx::concb(sx::bool()) {
            let seq = sx::range(1, 4);
            let old = s.ack_seqnum();
            let h = MrpHeader { seqnum: Some(seq), ack_num: None, num_packets: None };
            let n = s.receive(&h, 7).map(|v| v.len()).unwrap_or(0);
            if seq < old || n > 0 {
                due = true;
            }
        }
        let fail = sx::bool();
        let mut calls = 0;
        let r = s.try_send_ack(|_| {
            calls += 1;
            if fail { Err(anyhow::anyhow!("x")) } else { Ok(()) }
        });
        sx::check!(calls == due as u32);
        if due && fail {
            sx::check!(matches!(r, Err(MrpSendError::InnerSendFailed(_))));
            sx::cover!();
        }
        if due && !fail {
            sx::check!(matches!(r, Ok(Some(a)) if a == s.ack_seqnum()));
            due = false;
        }
    }
}

/// What is not a packet of the protocol is handed on as it came and changes nothing.
//@ harness bound="any_header_without_seqnum_and_ack"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_passthrough() {
    let mut s = S::with_capacity_limit(3);
    let pre = sx::range(1, 3);
    let h = MrpHeader { seqnum: Some(pre), ack_num: None, num_packets: None };
    let _ = s.receive(&h, 1);
    let a = s.ack_seqnum();
    let l = s.receive_len();
    let tag = sx::u64();
    let np = if sx::bool() { Some(sx::u32()) } else { None };
    let h = MrpHeader { seqnum: None, ack_num: None, num_packets: np };
    let r = s.receive(&h, tag).unwrap();
    sx::check!(r.len() == 1 && r[0] == tag);
    sx::check!(s.ack_seqnum() == a && s.receive_len() == l);
    sx::cover!(a == 2);
    sx::cover!(l == 2);
}
