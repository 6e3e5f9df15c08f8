//@ property=X01
// Helpers at the boundary: copies that fit or fail, pointers that are null, events that are not lost.
use ringrtc::common::slice::{SafeSlicing, safe_copy_array};
use ringrtc::core::util::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};

//@ harness bound="any_two_32-bit_values"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_minmax() {
    let (a, b) = (sx::u32(), sx::u32());
    let (x, y) = minmax(a, b);
    sx::check!(x <= y);
    sx::check!((x, y) == (a, b) || (x, y) == (b, a));
    sx::cover!(a > b);
}

//@ harness bound="16_bytes,one_of_them_any,the_others_any_from_16_up;lengths_0,15,17"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_uuid() {
    let n = [16, 0, 15, 17][sx::pick(0, 3) as usize];
    // one byte is any, the others have two digits
    let b = sx::vec(n);
    let any = sx::pick(0, 15) as usize;
    sx::assume(b.iter().enumerate().all(|(i, b)| i == any || *b >= 16));
    let s = uuid_to_string(&b);
    if n != 16 {
        sx::check!(s.is_empty());
        sx::cover!();
        return;
    }
    let hex = |v: u8| if v < 10 { b'0' + v } else { b'a' + v - 10 };
    let mut want = vec![];
    for (i, b) in b.iter().enumerate() {
        if [4, 6, 8, 10].contains(&i) {
            want.push(b'-');
        }
        want.push(hex(b >> 4));
        want.push(hex(b & 15));
    }
    sx::check!(s.as_bytes() == want);
    sx::cover!();
}

//@ harness bound="sources_and_targets_up_to_4_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_slices() {
    let n = sx::pick(0, 4) as usize;
    let src = sx::vec(n);
    let before = sx::bytes::<3>();
    let mut array = before;
    let r = array.safe_copy_from_slice(&src);
    let mut vec = before.to_vec();
    let rv = vec.safe_copy_from_slice(&src);
    let mut back = before;
    let mut sl = &mut back[..];
    let rs = SafeSlicing::safe_copy_from_slice(&mut sl, &src);
    let mut back2 = before;
    let ru = back2[..].safe_copy_from_slice(&src);
    let fits = n == 3;
    for (r, got) in [(r, &array[..]), (rv, &vec[..]), (rs, &back[..]), (ru, &back2[..])] {
        sx::check!(r.is_ok() == fits);
        if fits {
            sx::check!(got == &src[..]);
            sx::cover!();
        } else {
            sx::check!(got == &before[..]);
            sx::cover!();
        }
    }
    let small = sx::bytes::<2>();
    let mut big = sx::bytes::<4>();
    let was = big;
    safe_copy_array(&small, &mut big);
    sx::check!(big[..2] == small && big[2..] == was[2..]);
}

//@ harness bound="every_helper,null_or_not"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_pointers() {
    let v = sx::u32();
    unsafe {
        sx::check!(ptr_as_mut::<u32>(std::ptr::null_mut()).is_err());
        sx::check!(ptr_as_box::<u32>(std::ptr::null_mut()).is_err());
        sx::check!(ptr_as_arc_ptr::<u32>(std::ptr::null_mut()).is_err());
        sx::check!(ptr_as_arc_mutex::<u32>(std::ptr::null_mut()).is_err());
        let mut x = v;
        sx::check!(ptr_as_mut(&mut x as *mut u32).is_ok_and(|p| *p == v));
        sx::check!(ptr_as_box(Box::into_raw(Box::new(v))).is_ok_and(|b| *b == v));
        let a = Arc::new(Mutex::new(v));
        let p = Arc::into_raw(a.clone()) as *mut u32;
        {
            // looking does not take it away
            let q = ptr_as_arc_ptr(p).unwrap();
            sx::check!(*q.get_arc().lock().unwrap() == v);
            sx::check!(Arc::strong_count(&a) == 2);
        }
        sx::check!(Arc::strong_count(&a) == 2);
        {
            let q = ptr_as_arc_mutex(p).unwrap();
            sx::check!(*q.lock().unwrap() == v);
        }
        sx::check!(Arc::strong_count(&a) == 1);
    }
    sx::cover!();
}

/// Events come out in order, and those sent before the close still do after it.
fn events(ops: usize) {
    let (tx, rx) = channel();
    let mut s = EventStream::from(rx);
    let mut tx = Some(tx);
    let (mut sent, mut got) = (0u32, 0u32);
    let mut closed = false;
    for _ in 0..ops {
        match sx::pick(0, 3) {
            0 => {
                if let Some(tx) = &tx {
                    let ok = tx.send(sent).is_ok();
                    sx::check!(ok != closed);
                    if !closed {
                        sent += 1;
                    }
                }
            }
            1 => {
                s.close();
                closed = true;
            }
            2 => tx = None,
            _ => {
                // would wait for the next one
                if got == sent && !closed && tx.is_some() {
                    continue;
                }
                let r = s.recv();
                if got < sent {
                    sx::check!(r == Some(got));
                    sx::cover!(closed);
                    sx::cover!(!closed && tx.is_none());
                    got += 1;
                } else {
                    sx::check!(r.is_none());
                    sx::cover!(closed);
                }
            }
        }
    }
}
//@ harness bound="6_sends,receives,closes_and_hang-ups"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_events() {
    events(6);
}

//@ harness bound="a_thread_sending_3_events,every_schedule,close_after_any_number_of_receives"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_events_threads() {
    sx::explore(true);
    let (tx, rx) = channel();
    let mut s = EventStream::from(rx);
    let sent = Arc::new(AtomicUsize::new(0));
    let s2 = sent.clone();
    let t = std::thread::spawn(move || {
        for k in 0..3usize {
            if tx.send(k).is_ok() {
                s2.fetch_add(1, Ordering::SeqCst);
            }
            sx::yield_now();
        }
    });
    let n = sx::pick(0, 3) as usize;
    for k in 0..n {
        sx::check!(s.recv() == Some(k));
    }
    if n < 3 && sx::concb(sx::bool()) {
        sx::yield_now();
    }
    s.close();
    let have = sent.load(Ordering::SeqCst);
    for k in n..have {
        sx::check!(s.recv() == Some(k));
    }
    sx::check!(s.recv().is_none());
    sx::cover!(have > n);
    sx::cover!(have < 3);
    t.join().unwrap();
    sx::check!(s.recv().is_none());
}

//@ harness bound="any_value,either_outcome"
#[unsafe(no_mangle)]
pub extern "C" fn hx_x_try() {
    let v = sx::u32();
    let fail = sx::concb(sx::bool());
    let r = try_scoped(|| {
        if fail {
            Err(anyhow::anyhow!("no"))?;
        }
        Ok(v)
    });
    sx::check!(r.is_ok() != fail);
    sx::check!(fail || r.is_ok_and(|x| x == v));
    sx::cover!(fail);
    sx::cover!(!fail);
}
