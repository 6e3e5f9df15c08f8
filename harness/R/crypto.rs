//@ property=C01
// Frame encryption: what one side encrypts the other decrypts, and no key stream is used twice.
use ringrtc::core::crypto::*;

fn secret(k: u8) -> Secret {
    let mut s = [k; 32];
    s[0] = 7;
    s
}

//@ harness bound="any_plaintext_of_0..20_bytes,one_frame"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_roundtrip() {
    let mut a = Context::new(secret(1));
    let mut b = Context::new(secret(2));
    let (rc, s) = a.send_state();
    b.add_receive_secret(9, rc, s);
    let n = [0, 1, 15, 16, 17, 20][sx::pick(0, 5) as usize];
    let plain = sx::vec(n);
    let mut data = plain.clone();
    let mut mac = Mac::default();
    let (rc, fc) = a.encrypt(&mut data, &mut mac).unwrap();
    sx::check!(rc == 0 && fc == 1);
    let sealed = data.clone();
    let r = b.decrypt(9, rc, fc, &mut data, &mac);
    sx::check!(r.is_ok());
    sx::check!(data == plain);
    // again: decrypting is no different the second time
    let mut data = sealed.clone();
    sx::check!(b.decrypt(9, rc, fc, &mut data, &mac).is_ok());
    sx::check!(data == plain);
    sx::cover!(n == 20);
}

/// Every frame gets a new counter, whatever happens to the ratchet between the frames, and a
/// receiver told of each new secret reads every frame.
//@ harness bound="5_operations_of_encrypt,advance,reset;any_2-byte_plaintexts"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_sequence() {
    let mut a = Context::new(secret(1));
    let mut b = Context::new(secret(2));
    let (rc, s) = a.send_state();
    b.add_receive_secret(9, rc, s);
    let mut sent = 0u64;
    let mut ratchet = 0u8;
    let mut resets = 1u8;
    for _ in 0..5 {
        match sx::pick(0, 2) {
            0 => {
                let plain = sx::vec(2);
                let mut data = plain.clone();
                let mut mac = Mac::default();
                let (rc, fc) = a.encrypt(&mut data, &mut mac).unwrap();
                sent += 1;
                sx::check!(fc == sent && rc == ratchet);
                sx::check!(b.decrypt(9, rc, fc, &mut data, &mac).is_ok());
                sx::check!(data == plain);
                sx::cover!(resets > 1 && ratchet > 0);
            }
            1 => {
                let (rc, s) = a.advance_send_ratchet();
                ratchet += 1;
                sx::check!(rc == ratchet && a.send_state() == (rc, s));
            }
            _ => {
                resets += 1;
                let s = secret(resets);
                a.reset_send_ratchet(s);
                ratchet = 0;
                sx::check!(a.send_state() == (0, s));
                b.add_receive_secret(9, 0, s);
            }
        }
    }
    sx::cover!(sent == 5);
}

/// The ratchet counter wraps after 255, and both sides go on.
//@ harness bound="a_receiver_joining_at_ratchet_254,3_advances"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_wrap() {
    let mut a = Context::new(secret(1));
    for _ in 0..254 {
        a.advance_send_ratchet();
    }
    let mut b = Context::new(secret(2));
    let (rc, s) = a.send_state();
    sx::check!(rc == 254);
    b.add_receive_secret(9, rc, s);
    for _ in 0..3 {
        if sx::concb(sx::bool()) {
            let plain = sx::vec(1);
            let mut data = plain.clone();
            let mut mac = Mac::default();
            let (rc, fc) = a.encrypt(&mut data, &mut mac).unwrap();
            sx::check!(b.decrypt(9, rc, fc, &mut data, &mac).is_ok());
            sx::check!(data == plain);
        }
        a.advance_send_ratchet();
    }
    let plain = sx::vec(1);
    let mut data = plain.clone();
    let mut mac = Mac::default();
    let (rc, fc) = a.encrypt(&mut data, &mut mac).unwrap();
    sx::check!(rc == 1);
    sx::check!(b.decrypt(9, rc, fc, &mut data, &mac).is_ok());
    sx::check!(data == plain);
    sx::cover!();
}
