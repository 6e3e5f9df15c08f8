//@ property=C03
// Late and reordered frames across key changes.
use ringrtc::core::crypto::*;

fn secret(k: u8) -> Secret {
    let mut s = [k; 32];
    s[0] = 7;
    s
}
fn seal(a: &mut Context, plain: &[u8]) -> (Vec<u8>, Mac, u8, u64) {
    let mut data = plain.to_vec();
    let mut mac = Mac::default();
    let (rc, fc) = a.encrypt(&mut data, &mut mac).unwrap();
    (data, mac, rc, fc)
}

/// The five newest secrets of a sender stay usable; older ones are forgotten.
//@ harness bound="1..7_secrets_each_with_a_ratchet_of_0..1"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_secrets() {
    let mut b = Context::new(secret(99));
    let n = sx::pick(1, 7) as usize;
    let adv = sx::concb(sx::bool());
    let plain = sx::vec(2);
    let mut frames = vec![];
    for k in 0..n {
        let mut a = Context::new(secret(k as u8));
        let (rc, s) = a.send_state();
        b.add_receive_secret(5, rc, s);
        if adv {
            a.advance_send_ratchet();
        }
        frames.push(seal(&mut a, &plain));
    }
    let k = sx::pick(0, 6) as usize;
    sx::assume(k < n);
    let f = &frames[k];
    let mut d = f.0.clone();
    let r = b.decrypt(5, f.2, f.3, &mut d, &f.1);
    sx::check!(r.is_ok() == (k + 5 >= n));
    sx::check!(if r.is_ok() { d == plain } else { d == f.0 });
    sx::cover!(r.is_ok() && n == 7);
    sx::cover!(r.is_err() && n == 7);
}

fn arrivals(frames: usize, steps: usize) {
    let mut a = Context::new(secret(1));
    let mut b = Context::new(secret(2));
    let (rc, s) = a.send_state();
    b.add_receive_secret(9, rc, s);
    let mut sent = vec![];
    for _ in 0..frames {
        for _ in 0..sx::pick(0, 2) {
            a.advance_send_ratchet();
        }
        let plain = sx::vec(1);
        let f = seal(&mut a, &plain);
        sent.push((f, plain));
    }
    for _ in 0..steps {
        let (f, plain) = &sent[sx::pick(0, frames as u64 - 1) as usize];
        let mut d = f.0.clone();
        let r = b.decrypt(9, f.2, f.3, &mut d, &f.1);
        // at most five key changes apart from the newest and within the last 300 frames
        let newest = sent[frames - 1].0.2;
        if newest - f.2 <= 5 {
            sx::check!(r.is_ok());
            sx::check!(d == *plain);
            sx::cover!(f.2 != newest);
        }
    }
}
//@ harness bound="3_frames_up_to_2_key_changes_apart,4_arrivals_in_any_order_with_repetitions"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_arrivals() {
    arrivals(3, 4);
}
//@ harness tier=thorough bound="4_frames_up_to_2_key_changes_apart,4_arrivals_in_any_order_with_repetitions"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_arrivals_4() {
    arrivals(4, 4);
}

/// The tag of a genuine empty frame.
fn tag(secret: &Secret, fc: u64) -> Mac {
    use hmac::Mac as _;
    let mut key = [0u8; 32];
    hkdf::Hkdf::<sha2::Sha256>::new(None, secret).expand(b"RingRTC HMAC Key", &mut key).unwrap();
    let mut h = hmac::Hmac::<sha2::Sha256>::new_from_slice(&key).unwrap();
    h.update(&fc.to_be_bytes());
    h.update(&[0; 16]);
    let mut m = Mac::default();
    m.copy_from_slice(&h.finalize().into_bytes()[..16]);
    m
}

fn late(first: usize, gaps: [u64; 3]) {
    let mut a = Context::new(secret(1));
    for _ in 0..first {
        a.advance_send_ratchet();
    }
    let mut secrets = vec![a.send_state().1];
    for _ in 0..14 {
        secrets.push(a.advance_send_ratchet().1);
    }
    let mut b = Context::new(secret(2));
    b.add_receive_secret(9, first as u8, secrets[0]);
    // genuine frames that arrive in order: (ratchet, counter)
    let mut seen: Vec<(usize, u64)> = vec![];
    let mut r = 0;
    let mut learnt = 0;
    for g in gaps {
        let d = sx::pick(0, g) as usize;
        let fc = sx::u64();
        sx::assume(fc > seen.last().map_or(0, |l| l.1));
        if d > 0 {
            learnt = fc;
        }
        r += d;
        let m = tag(&secrets[r], fc);
        sx::check!(b.decrypt(9, (first + r) as u8, fc, &mut [], &m).is_ok());
        seen.push((r, fc));
    }
    // and one that comes late
    let q = sx::pick(0, 14) as usize;
    sx::assume(q <= r);
    let fc = sx::u64();
    sx::assume(fc > 0);
    for s in &seen {
        sx::assume(if s.0 < q {
            s.1 < fc
        } else if s.0 > q {
            s.1 > fc
        } else {
            true
        });
    }
    let m = tag(&secrets[q], fc);
    let ok = b.decrypt(9, (first + q) as u8, fc, &mut [], &m).is_ok();
    if r - q <= 5 && (q == r || learnt - fc <= 300) {
        sx::check!(ok);
        sx::cover!(q < r);
    }
    if r - q > 5 {
        sx::check!(!ok);
        sx::cover!();
    }
    // the newest go on working
    let last = seen.last().unwrap();
    let m = tag(&secrets[r], last.1);
    sx::check!(b.decrypt(9, (first + r) as u8, last.1, &mut [], &m).is_ok());
}
//@ harness bound="3_frames_up_to_3_key_changes_apart_then_a_late_one,any_64-bit_counters"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_late() {
    late(0, [0, 3, 3]);
}
//@ harness bound="2_frames_up_to_7_key_changes_apart_then_a_late_one,any_64-bit_counters,ratchet_wrapping"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_late_wrap() {
    late(253, [0, 7, 0]);
}
