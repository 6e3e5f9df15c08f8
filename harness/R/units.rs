//@ property=U01
// Data rates and sizes.
use ringrtc::common::units::*;

//@ harness bound="any_16-bit_count"
#[unsafe(no_mangle)]
pub extern "C" fn hx_u_convert() {
    let n = sx::u16() as u64;
    let mul = [1u64, 1000, 1_000_000, 8, 8000, 8_000_000];
    let k = sx::pick(0, 5) as usize;
    let s = match k {
        0 => DataSize::from_bits(n),
        1 => DataSize::from_kilobits(n),
        2 => DataSize::from_megabits(n),
        3 => DataSize::from_bytes(n),
        4 => DataSize::from_kilobytes(n),
        _ => DataSize::from_megabytes(n),
    };
    sx::check!(s.as_bits() == n * mul[k]);
    let back = match k {
        0 => s.as_bits(),
        1 => s.as_kilobits(),
        2 => s.as_megabits(),
        3 => s.as_bytes(),
        4 => s.as_kilobytes(),
        _ => s.as_megabytes(),
    };
    sx::check!(back == n);
    let r = match k {
        0 => DataRate::from_bps(n),
        1 => DataRate::from_kbps(n),
        2 => DataRate::from_mbps(n),
        _ => DataRate::per_second(s),
    };
    sx::check!(r.as_bps() == n * mul[k]);
    sx::check!(s.per_second() == r);
    sx::cover!(k == 5);
}

//@ harness bound="any_64-bit_rates"
#[unsafe(no_mangle)]
pub extern "C" fn hx_u_min() {
    let (a, b) = (sx::u64(), sx::u64());
    let (x, y) = (DataRate::from_bps(a), DataRate::from_bps(b));
    sx::check!(x.min_opt(None) == x);
    let m = x.min_opt(Some(y));
    sx::check!(m.as_bps() == if a < b { a } else { b });
    sx::check!((x < y) == (a < b) && (x == y) == (a == b));
    sx::check!(DataRate::default().as_bps() == 0);
    sx::check!(x.as_kbps() == a / 1000);
    sx::check!(x.as_mbps() == a / 1_000_000);
    sx::cover!(a < b);
}

//@ harness bound="sizes_up_to_2^62_bits"
#[unsafe(no_mangle)]
pub extern "C" fn hx_u_add() {
    let (a, b) = (sx::u64(), sx::u64());
    sx::assume(a < 1 << 62 && b < 1 << 62);
    let s = DataSize::from_bits(a) + DataSize::from_bits(b);
    sx::check!(s.as_bits() == a + b);
    sx::cover!(a == b);
}
