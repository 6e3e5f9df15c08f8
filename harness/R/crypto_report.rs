//@ property=C04
// Failures to decrypt are counted per sender and reported once each, after a quiet interval.
use ringrtc::core::crypto::*;
use std::time::{Duration, UNIX_EPOCH};

//@ harness bound="5_operations_of_failing_for_either_of_2_senders_or_asking_for_a_report,any_pauses"
#[unsafe(no_mangle)]
pub extern "C" fn hx_c_report() {
    let mut now = 1u64;
    sx::clock(now * 1_000_000_000);
    let mut c = Context::new([1; 32]);
    // (count, first, last)
    let mut model = [(0u32, 0u64, 0u64); 2];
    let mut checked = now;
    for _ in 0..5 {
        let t = sx::range(1, 60000);
        sx::assume(t >= now);
        now = t;
        sx::clock(now * 1_000_000_000);
        let op = sx::pick(0, 2) as usize;
        if op < 2 {
            let mut d = [5u8];
            sx::check!(c.decrypt(op as u32, 0, 1, &mut d, &[0; 16]).is_err());
            let m = &mut model[op];
            if m.0 == 0 {
                m.1 = now;
            }
            m.0 += 1;
            m.2 = now;
        } else {
            let r = c.get_error_report();
            let mut any = false;
            for id in 0..2 {
                let m = &mut model[id];
                let due = m.0 > 0 && m.2 < checked;
                let got = r.as_ref().and_then(|r| r.get(&(id as u32)));
                sx::check!(got.is_some() == due);
                if let Some(s) = got {
                    any = true;
                    sx::check!(s.count == m.0);
                    sx::check!(s.start_time == UNIX_EPOCH + Duration::from_secs(m.1));
                    sx::check!(s.last_time == UNIX_EPOCH + Duration::from_secs(m.2));
                    *m = (0, 0, 0);
                    sx::cover!(s.count == 2);
                }
            }
            sx::check!(r.is_some() == any);
            checked = now;
        }
        for id in 0..2 {
            let s = c.get_error_stats();
            sx::check!(s.get(&(id as u32)).map_or(0, |s| s.count) == model[id].0);
        }
    }
}
