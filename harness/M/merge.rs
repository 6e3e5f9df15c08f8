//@ property=M04
// Fragmented sends and their reassembly.
use mrp::*;
use std::time::Instant;

/// Fragments whose order after merging can be seen.
#[derive(Clone, Copy)]
struct Bag {
    n: usize,
    v: [u64; 8],
}
impl Bag {
    fn one(t: u64) -> Self {
        let mut v = [0; 8];
        v[0] = t;
        Bag { n: 1, v }
    }
}
impl Extend<Bag> for Bag {
    fn extend<I: IntoIterator<Item = Bag>>(&mut self, it: I) {
        for b in it {
            for i in 0..b.n {
                self.v[self.n] = b.v[i];
                self.n += 1;
            }
        }
    }
}

type S = MrpStream<(u64, Option<u32>, u64), Bag>;

/// A message of `frags` fragments between two plain ones, arriving in any order with repeats.
fn any_order(frags: usize, before: usize, after: usize, arrivals: usize) {
    let base = Instant::now();
    let total = frags + before + after;
    let cap = total + 1;
    let mut a = S::with_capacity_limit(cap);
    let mut b = S::with_capacity_limit(cap);
    let mut pkts: Vec<(u64, Option<u32>, u64)> = vec![];
    let mut tags = [0u64; 8];
    for i in 0..total {
        tags[i] = sx::u64();
    }
    let mut i = 0;
    let mut plain = |a: &mut S, pkts: &mut Vec<_>, i: &mut usize| {
        let t = tags[*i];
        *i += 1;
        let r = a.try_send(|h| {
            let p = (h.seqnum.unwrap(), h.num_packets, t);
            pkts.push(p);
            Ok((p, base))
        });
        sx::check!(r.is_ok());
    };
    for _ in 0..before {
        plain(&mut a, &mut pkts, &mut i);
    }
    let fr: Vec<(u64, Option<u32>, u64)> = (0..frags).map(|k| (0, None, tags[before + k])).collect();
    let r = a.try_send_fragmented(fr, |idx, h, f| {
        let p = (h.seqnum.unwrap(), h.num_packets, f.2);
        sx::check!(h.num_packets.is_some() == (idx == 0));
        pkts.push(p);
        (p, base)
    });
    sx::check!(r.is_ok());
    i += frags;
    for _ in 0..after {
        plain(&mut a, &mut pkts, &mut i);
    }
    sx::check!(pkts.len() == total);
    let mut got: Vec<Bag> = vec![];
    let mut feed = |b: &mut S, k: usize, got: &mut Vec<Bag>| {
        let (seq, np, t) = pkts[k];
        let h = MrpHeader { seqnum: Some(seq), ack_num: None, num_packets: np };
        let r = b.receive_and_merge(&h, Bag::one(t));
        sx::check!(r.is_ok());
        if let Ok(v) = r {
            got.extend(v);
        }
    };
    for _ in 0..arrivals {
        let k = sx::pick(0, total as u64 - 1) as usize;
        feed(&mut b, k, &mut got);
    }
    // the rest arrives in the end
    sx::cover!(got.len() < before + after + 1);
    for k in 0..total {
        feed(&mut b, k, &mut got);
    }
    sx::check!(got.len() == before + after + 1);
    if got.len() != before + after + 1 {
        return;
    }
    for k in 0..before {
        sx::check!(got[k].n == 1 && got[k].v[0] == tags[k]);
    }
    let m = &got[before];
    sx::check!(m.n == frags);
    for k in 0..frags.min(m.n) {
        sx::check!(m.v[k] == tags[before + k]);
    }
    for k in 0..after {
        let g = &got[before + 1 + k];
        sx::check!(g.n == 1 && g.v[0] == tags[before + frags + k]);
    }
    sx::check!(b.ack_seqnum() == total as u64 + 1);
    sx::observe(b.ack_seqnum());
}

//@ harness bound="2_fragments_after_a_plain_message,4_arrivals_in_any_order"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_merge_2() {
    any_order(2, 1, 1, 4)
}

//@ harness bound="3_fragments_then_a_plain_message,4_arrivals_in_any_order"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_merge_3() {
    any_order(3, 0, 1, 4)
}

//@ harness bound="1_fragment_is_a_plain_message,3_arrivals"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_merge_1() {
    any_order(1, 1, 1, 3)
}

//@ harness tier=thorough bound="4_fragments_between_plain_messages,5_arrivals_in_any_order"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_merge_4() {
    any_order(4, 1, 1, 5)
}

/// A fragmented send goes out whole or not at all.
//@ harness bound="capacity_1..4,0..5_packets_queued,0..5_fragments"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_frag_atomic() {
    let base = Instant::now();
    let cap = sx::pick(1, 4) as usize;
    let mut a = S::with_capacity_limit(cap);
    let pre = sx::pick(0, 4) as usize;
    let mut q = 0;
    for _ in 0..pre {
        if a.try_send(|h| Ok(((h.seqnum.unwrap(), None, 0), base))).is_ok() {
            q += 1;
        }
    }
    let n = sx::pick(0, 5) as usize;
    let fr = vec![(0u64, None, 0u64); n];
    let mut calls = 0;
    let r = a.try_send_fragmented(fr, |idx, h, _| {
        sx::check!(idx == calls);
        sx::check!(h.seqnum == Some((q + idx) as u64 + 1));
        sx::check!(h.num_packets == if idx == 0 { Some(n as u32) } else { None });
        calls += 1;
        ((h.seqnum.unwrap(), h.num_packets, 0), base)
    });
    if r.is_ok() {
        sx::check!(calls == n && a.send_len() == q + n && q + n <= cap);
        sx::cover!(n == 3);
    } else {
        sx::check!(calls == 0 && a.send_len() == q);
        sx::check!(q + n >= cap);
        sx::cover!(n == 1);
    }
}

/// A peer that lies about its fragments: errors only, no crash, no endless growth, and later
/// messages get through.
//@ harness bound="3_arrivals_in_order_with_any_num_packets,capacity_3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_merge_hostile() {
    let mut b = S::with_capacity_limit(3);
    for i in 0..3u64 {
        let np = if sx::concb(sx::bool()) { Some(sx::u32()) } else { None };
        let h = MrpHeader { seqnum: Some(i + 1), ack_num: None, num_packets: np };
        let r = b.receive_and_merge(&h, Bag::one(i));
        match r {
            Ok(v) => {
                for m in &v {
                    sx::check!(m.n >= 1 && m.n <= 3);
                    // only what came, ending with what came last
                    sx::check!(m.v[m.n - 1] == i);
                    for k in 1..m.n {
                        sx::check!(m.v[k] == m.v[k - 1] + 1);
                    }
                }
                sx::check!(v.len() <= 1);
            }
            Err(MrpReceiveError::InvalidNumPackets(x)) => {
                sx::check!(np == Some(x) && x > 3);
                sx::cover!();
            }
            Err(MrpReceiveError::PacketMergeConflict) => {
                sx::check!(i > 0 && np.is_some());
                sx::cover!();
            }
            Err(_) => sx::check!(false),
        }
        sx::check!(b.ack_seqnum() == i + 2);
    }
    // whatever happened, a merge announced so far spans at most the window: after that many
    // more packets, plain ones are delivered as they come
    let mut last = 0;
    for i in 3..9u64 {
        let h = MrpHeader { seqnum: Some(i + 1), ack_num: None, num_packets: None };
        last = b.receive_and_merge(&h, Bag::one(i)).map(|v| v.len()).unwrap_or(0);
    }
    sx::check!(last == 1);
}

/// What becomes of each packet, whatever the fragment counts in the headers say: an abandoned
/// message is dropped to its announced end, and nothing of it is ever handed over.
//@ harness bound="5_arrivals_in_order_with_any_fragment_counts,capacity_4"
#[unsafe(no_mangle)]
pub extern "C" fn hx_m_merge_model() {
    let mut b = S::with_capacity_limit(4);
    // being collected: first, end; abandoned up to
    let mut open: Option<(u64, u64)> = None;
    let mut dead = 0u64;
    for seq in 1..=5u64 {
        let np = if sx::concb(sx::bool()) { Some(sx::u32()) } else { None };
        let h = MrpHeader { seqnum: Some(seq), ack_num: None, num_packets: np };
        let r = b.receive_and_merge(&h, Bag::one(seq));
        if seq <= dead {
            sx::check!(matches!(&r, Ok(v) if v.is_empty()));
            sx::cover!(np.is_none());
        } else if let Some((first, end)) = open {
            if np.unwrap_or(0) != 0 {
                sx::check!(matches!(r, Err(MrpReceiveError::PacketMergeConflict)));
                dead = end;
                open = None;
            } else if seq == end {
                let ok = matches!(&r, Ok(v) if v.len() == 1 && v[0].n as u64 == end - first + 1
                    && (0..v[0].n).all(|k| v[0].v[k] == first + k as u64));
                sx::check!(ok);
                sx::cover!(first == 2 && end == 5);
                open = None;
            } else {
                sx::check!(matches!(&r, Ok(v) if v.is_empty()));
            }
        } else {
            match np {
                Some(n) if n > 4 => {
                    sx::check!(matches!(r, Err(MrpReceiveError::InvalidNumPackets(x)) if x == n))
                }
                Some(n) if n > 1 => {
                    sx::check!(matches!(&r, Ok(v) if v.is_empty()));
                    open = Some((seq, seq + sx::conc(n as u64) - 1));
                }
                _ => sx::check!(matches!(&r, Ok(v) if v.len() == 1 && v[0].n == 1 && v[0].v[0] == seq)),
            }
        }
    }
}
