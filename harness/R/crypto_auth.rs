//@ property=C02
// Frame authentication: only what was sent is accepted, and a rejected frame leaves no trace.
use ringrtc::core::crypto::*;

fn secret(k: u8) -> Secret {
    let mut s = [k; 32];
    s[0] = 7;
    s
}

struct Pair {
    a: Context,
    b: Context,
}
fn pair() -> Pair {
    let a = Context::new(secret(1));
    let mut b = Context::new(secret(2));
    let (rc, s) = a.send_state();
    b.add_receive_secret(9, rc, s);
    b.add_receive_secret(8, 0, secret(3));
    Pair { a, b }
}
fn seal(a: &mut Context, plain: &[u8]) -> (Vec<u8>, Mac, u8, u64) {
    let mut data = plain.to_vec();
    let mut mac = Mac::default();
    let (rc, fc) = a.encrypt(&mut data, &mut mac).unwrap();
    (data, mac, rc, fc)
}
/// everything genuine is read, before and after
fn good(b: &mut Context, f: &(Vec<u8>, Mac, u8, u64), plain: &[u8]) {
    let mut d = f.0.clone();
    sx::check!(b.decrypt(9, f.2, f.3, &mut d, &f.1).is_ok());
    sx::check!(d == plain);
}
fn errors(b: &mut Context, id: u32) -> u32 {
    b.get_error_stats().get(&id).map_or(0, |s| s.count)
}

/// A tag that differs anywhere from the right one.
//@ harness bound="any_wrong_tag,any_3-byte_plaintext,ratchet_0..1"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_wrong_tag() {
    let Pair { mut a, mut b } = pair();
    let plain = sx::vec(3);
    let f0 = seal(&mut a, &plain);
    if sx::concb(sx::bool()) {
        a.advance_send_ratchet();
    }
    let f1 = seal(&mut a, &plain);
    let seen = sx::concb(sx::bool());
    if seen {
        good(&mut b, &f0, &plain);
    }
    let delta = sx::bytes::<16>();
    let mut mac = f1.1;
    let mut any = 0;
    for i in 0..16 {
        mac[i] ^= delta[i];
        any |= delta[i];
    }
    sx::assume(any != 0);
    let mut d = f1.0.clone();
    let r = b.decrypt(9, f1.2, f1.3, &mut d, &mac);
    sx::check!(r == Err(Error::NoMatchingReceiverState));
    sx::check!(d == f1.0);
    sx::check!(errors(&mut b, 9) == 1 && errors(&mut b, 8) == 0);
    good(&mut b, &f0, &plain);
    good(&mut b, &f1, &plain);
    sx::check!(errors(&mut b, 9) == 1);
    sx::cover!(seen);
}

/// A right tag on a ciphertext it was not made for.
//@ harness bound="any_ciphertext_of_0..4_bytes,ratchets_0,1,2,255"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_moved_tag() {
    let Pair { mut a, mut b } = pair();
    let plain = sx::vec(3);
    let f0 = seal(&mut a, &plain);
    a.advance_send_ratchet();
    let f1 = seal(&mut a, &plain);
    if sx::concb(sx::bool()) {
        good(&mut b, &f0, &plain);
    }
    let n = sx::pick(0, 4) as usize;
    let data = sx::vec(n);
    let rc = [0u8, 1, 2, 255][sx::pick(0, 3) as usize];
    let mut d = data.clone();
    let r = b.decrypt(9, rc, f1.3, &mut d, &f1.1);
    if r.is_ok() {
        sx::check!(n == 3 && data == f1.0 && rc == f1.2);
        sx::check!(d == plain);
        sx::check!(errors(&mut b, 9) == 0);
        sx::cover!();
    } else {
        sx::check!(n != 3 || data != f1.0 || rc != f1.2);
        sx::check!(d == data);
        sx::check!(errors(&mut b, 9) == 1);
        sx::cover!(n == 3);
    }
    good(&mut b, &f1, &plain);
    good(&mut b, &f0, &plain);
}

/// A right tag under a frame counter it was not made for.
//@ harness bound="any_64-bit_frame_counter,ratchets_0,1,2,255,empty_frames"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_moved_counter() {
    let Pair { mut a, mut b } = pair();
    let f0 = seal(&mut a, &[]);
    a.advance_send_ratchet();
    let f1 = seal(&mut a, &[]);
    if sx::concb(sx::bool()) {
        good(&mut b, &f0, &[]);
    }
    // what is secret is the same either way; this keeps the tag a term over an unknown
    let fc = sx::u64();
    let rc = [0u8, 1, 2, 255][sx::pick(0, 3) as usize];
    let r = b.decrypt(9, rc, fc, &mut [], &f1.1);
    if r.is_ok() {
        sx::check!(fc == f1.3 && rc == f1.2);
        sx::check!(errors(&mut b, 9) == 0);
        sx::cover!();
    } else {
        sx::check!(fc != f1.3 || rc != f1.2);
        sx::check!(errors(&mut b, 9) == 1);
        sx::cover!(rc == 1);
    }
    good(&mut b, &f1, &[]);
    good(&mut b, &f0, &[]);
}

/// One sender's frames are not accepted as another's.
//@ harness bound="any_sender_id,any_2-byte_plaintext"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_sender() {
    let Pair { mut a, mut b } = pair();
    let plain = sx::vec(2);
    let f = seal(&mut a, &plain);
    let id = [7, 8, 9, u32::MAX][sx::pick(0, 3) as usize];
    let mut d = f.0.clone();
    let r = b.decrypt(id, f.2, f.3, &mut d, &f.1);
    sx::check!(r.is_ok() == (id == 9));
    sx::check!(if id == 9 { d == plain } else { d == f.0 });
    sx::check!(errors(&mut b, id) == (id != 9) as u32);
    sx::check!(errors(&mut b, 9) == 0);
    good(&mut b, &f, &plain);
    sx::cover!(id == 9);
    sx::cover!(id == 8);
}
